"""What lists and maps a function fills, segment by segment: plain elements and, for every loop over a source, what one
round adds.  A product automaton follows all paths; loops are summarised by their rounds, so sizes do not matter."""
from .q import *
from .walk import narrow, truth, variant_of, forget
from .core import T, mk, show

NEW = ('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'mrk_models::intr::coll_new', 'core::default::Default::default',
       'std::collections::hash::map::HashMap::new', 'std::collections::hash::map::HashMap::with_capacity', 'alloc::collections::btree::map::BTreeMap::new')
CAP = 5

def lit_obj(t):
    """the object a vec![..] literal creates, whatever its elements"""
    return mk('call', 'vec!', (), t.a[2]) if t.k == 'call' and t.a[0] == 'vec!' else t

class Seq:
    """hooks: want(obj, type) whether an object is followed; round_end(src, rounds {obj: elements}, known, aux, P); note(P, st, e) -> aux"""
    def __init__(self, it, want, keep=None):
        self.it, self.keep = it, keep
        self.types, self.dts = {}, {}
        for e in it.all_events('call'):
            if e.result is None: continue
            self.dts[e.result] = e.dt or ''
            if e.result.k == 'call': self.dts[(e.result.a[0], e.result.a[2])] = e.dt or ''
            if e.path == 'vec!' and e.v and e.v[0].k == 'agg':
                dt = it.outer_dt(e.site) or e.dt or ''
                if want(lit_obj(e.result), dt): self.types[lit_obj(e.result)] = dt
                continue
            if e.path in NEW or last(e.path) in ('new', 'with_capacity') and e.path.startswith(('alloc::', 'std::', 'hashbrown')) and any(c in e.path for c in ('Vec', 'Map')):
                dt = it.outer_dt(e.site)
                if want(e.result, dt): self.types[e.result] = dt
        self.fed = set()
        self.rounds, self.cut, self.left = set(), {}, set()
        for self.last in (False, True):
            self.rounds, self.cut, self.left = set(), {}, set()
            self.P = Prod(it, ((), frozenset(), (), (), frozenset()), self.delta)
    # -- hooks
    def round_end(self, P, src, rounds, known, aux): pass
    def note(self, P, st, e): return st[4]
    def on_edge(self, P, st, x): return st[4]
    # -- helpers
    def val(self, P, t, ns=None): return norm(self.it, P.resolve(t, ns))
    def obj(self, P, t):
        t = lit_obj(P.resolve(t))
        while t.k == 'call' and t not in self.types and t.a[1] and is_conv(t.a[0]): t = lit_obj(t.a[1][0])
        return t if t in self.types else None
    def dt(self, t): return self.dts.get(t) or (self.dts.get((t.a[0], t.a[2]), '') if t.k == 'call' else '')
    def put(self, st, obj, seg):
        stack, known, objs, rounds, aux = st
        if stack:
            d = dict(rounds); k = (stack[-1], obj)
            self.fed.add(k)
            cur = d.get(k, ())
            if seg[0] == 'loop' and cur and cur[-1] == seg: return st
            d[k] = (cur + (seg,))[:CAP]
            return (stack, known, objs, tuple(sorted(d.items(), key=lambda kv: (kv[0][0].id, kv[0][1].id))), aux)
        d = dict(objs); cur = d.get(obj, ())
        if seg[0] == 'loop' and cur and cur[-1] == seg: return st
        d[obj] = (cur + (seg,))[:16]
        return (stack, known, tuple(sorted(d.items(), key=lambda kv: kv[0].id)), rounds, aux)
    def seq_of(self, st, obj):
        return dict(st[2]).get(obj, ())
    def adds(self, P, e):
        """(object, elements or the list appended) when e adds to a followed object"""
        l = last(e.path)
        if e.kind != 'call' or not e.v: return None
        if l in ('push', 'push_back', 'coll_add') and len(e.v) == 2: o = self.obj(P, e.v[0]); return (o, [e.v[1]]) if o is not None else None
        if l == 'insert' and 'Map' in e.path and len(e.v) == 3: o = self.obj(P, e.v[0]); return (o, [mk('agg', '()', None, ('0', '1'), (e.v[1], e.v[2]))]) if o is not None else None
        if l == 'append' and len(e.v) == 2 and 'Vec' in e.path:
            o = self.obj(P, e.v[0])
            if o is None: return None
            x = P.resolve(e.v[1])
            n = norm(self.it, x)
            if n.k == 'call' and n.a[0] == 'vec!' and n.a[1] and n.a[1][0].k == 'agg':
                raw = x if x.k == 'call' and x.a[0] == 'vec!' else n
                return (o, list(raw.a[1][0].a[3]))
            s = self.obj(P, x)
            return (o, s) if s is not None else (o, None)
        return None
    def elems(self, P, src):
        """the elements of a constant list that is walked"""
        t = src
        if t.k == 'rangeit' and all(x.k == 'int' for x in t.a) and 0 < t.a[1].a[0] - t.a[0].a[0] <= 8: return [mk('int', i, *t.a[0].a[1:]) for i in range(t.a[0].a[0], t.a[1].a[0])]
        while t.k == 'src' and t.a[1] in ('into_iter', 'iter', 'iter_mut'): t = t.a[0]
        t = P.resolve(t)
        while t.k == 'call' and is_conv(t.a[0]) and t.a[1]: t = P.resolve(t.a[1][0])
        return list(t.a[3]) if src.k == 'src' and t.k == 'agg' and t.a[0] == '[]' and 0 < len(t.a[3]) <= 8 else None
    def concrete(self, st, t):
        """t with the current elements of the constant lists being walked in place"""
        at = {k.a[0]: w for k, w in st[1] if k.k == 'cidx'}
        if not at: return t
        def go(t, d=0):
            if not isinstance(t, T) or d > 40: return t
            if t.k == 'item':
                w = at.get(norm(self.it, t.a[0]))
                return w if w is not None else t
            if t.k == 'proj':
                b = go(t.a[0], d + 1)
                return self.it.project(b, t.a[1]) if b is not t.a[0] else t
            if t.k == 'call': return mk('call', t.a[0], tuple(go(x, d + 1) for x in t.a[1]), *t.a[2:])
            if t.k == 'agg': return mk('agg', t.a[0], t.a[1], t.a[2], tuple(go(x, d + 1) for x in t.a[3])) if t.a[3] else t
            return t
        return go(t)
    CUTS = {'truncate', 'clear', 'pop', 'retain', 'retain_mut', 'dedup', 'dedup_by', 'dedup_by_key', 'drain', 'swap_remove', 'split_off', 'swap', 'reverse', 'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'rotate_left', 'rotate_right', 'pop_if', 'set_len', 'resize', 'insert', 'remove'}
    VIEWS = {'index_mut', 'as_mut_slice', 'deref_mut', 'get_mut', 'split_at_mut', 'split_first_mut', 'split_last_mut', 'as_mut'}
    def delta(self, P, st, kind, x, n):
        stack, known, objs, rounds, aux = st
        if kind == 'ev':
            if x.kind == 'call' and x.result is not None: st = (stack, forget(known, x.result), objs, rounds, aux); known = st[1]
            if x.kind == 'call' and x.path == 'vec!' and x.v and x.v[0].k == 'agg' and lit_obj(x.result) in self.types:
                for v in x.v[0].a[3]: st = self.put(st, lit_obj(x.result), ('el', P.resolve(v)))
            a = self.adds(P, x)
            if a is not None:
                o, els = a
                if isinstance(els, T):
                    for seg in self.seq_of(st, els): st = self.put(st, o, seg)
                    if stack and not self.seq_of(st, els):
                        for (s, ob), r in rounds:
                            if ob is els and s is stack[-1]:
                                for seg in r: st = self.put(st, o, seg)
                elif els is None: st = self.put(st, o, ('el', mk('unk', 'appended')))
                else:
                    for v in els: st = self.put(st, o, ('el', self.concrete(st, P.resolve(v))))
            elif x.kind == 'call' and x.v and last(x.path) in self.CUTS and x.at and x.at[0].startswith('&mut ') and not (last(x.path) in ('insert', 'remove') and 'Vec' not in x.path):
                w = x.v[0]
                o = self.obj(P, w)
                while o is None:        # a mutable view of the list, or of a part of it
                    w = P.resolve(w)
                    while w.k == 'proj' and w.a[0].k == 'call' and last(w.a[0].a[0]) in self.VIEWS: w = w.a[0]
                    if not (w.k == 'call' and w.a[1] and last(w.a[0]) in self.VIEWS): break
                    w = w.a[1][0]
                    o = self.obj(P, w)
                if o is not None: self.cut.setdefault((o, last(x.path)), x.span)
            aux = self.note(P, st, x)
            return None if aux is None else st[:4] + (aux,)
        if not x: return st
        if x[0] in ('next', 'next_back'):
            s = norm(self.it, P.resolve(x[1]))
            if s in stack:
                while stack[-1] is not s:       # left an inner loop early
                    self.left.add(stack[-1]); stack = stack[:-1]
                r = {o: v for (q, o), v in rounds if q is s}
                if self.last: self.round_end(P, s, r, known, aux)
                self.rounds.add((s, tuple(sorted(r.items(), key=lambda kv: kv[0].id))))
                rounds = tuple(kv for kv in rounds if kv[0][0] in stack and kv[0][0] is not s)
                stack = stack[:-1]
            has = lambda t: any(q.k == 'item' and norm(self.it, q.a[0]) is s for q in subterms(t))
            known = frozenset((t, w) for t, w in known if not has(t))
            aux = frozenset(f for f in aux if not any(isinstance(y, T) and has(y) for y in f))
            st = (stack, known, objs, rounds, aux)
            aux = self.on_edge(P, st, x)
            if aux is None: return None
            st = st[:4] + (aux,)
            els = self.elems(P, x[1])
            if els is not None:
                # a constant list is walked element by element
                key, cnt = mk('cidx', s), mk('ccnt', s)
                i = next((w for t, w in known if t is cnt), 0)
                known = frozenset((t, w) for t, w in st[1] if t is not key and t is not cnt)
                if (x[2] == 'Some') != (i < len(els)): return None
                if x[2] == 'Some': known |= {(key, els[i] if x[0] == 'next' else els[-1 - i]), (cnt, i + 1)}
                return (stack, known) + st[2:]
            if x[2] == 'Some': return (stack + (s,),) + st[1:]
            for (q, o) in sorted(self.fed, key=lambda k: (k[0].id, k[1].id)):
                if q is s: st = self.put(st, o, ('loop', s))
            return st
        if x[0] == 'variant' and x[1].k == 'discr':
            t = norm(self.it, P.resolve(x[1].a[0]))
            if self.keep is None or self.keep(t):
                known = narrow(known, t, x[2] if isinstance(x[2], frozenset) else frozenset([x[2]]))
                if known is None: return None
        elif x[0] == 'bool':
            t = norm(self.it, P.resolve(x[1]))
            if self.keep is None or self.keep(t):
                known = truth(known, t, x[2])
                if known is None: return None
        st = (stack, known, objs, rounds, aux)
        aux = self.on_edge(P, st, x)
        return None if aux is None else st[:4] + (aux,)
    def results(self):
        for nd in exits(self.it):
            ev = [e for e in self.it.events[nd] if e.kind == 'return'][0]
            for st, ns in self.P.ends.get(nd, ()):
                self.P.cur = ns
                self.left |= set(st[0])
                yield st, self.val(self.P, ev.v[0], ns), nd, ns
