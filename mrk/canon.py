"""The canonical column name: which function computes it, and what text it builds."""
from .q import *
from .core import T, mk, show
from .strings import Grammar, Build, BAD, COLLS
from .shared import A0

ORDER = ('name', 'op', 'state', 'direction')
IGNORE = frozenset(('metric', 'unit', 'grouping_power', 'max_value_power', 'id') + ORDER)
IX = {k: i + 1 for i, k in enumerate(ORDER)}
IX['id'] = 6
REST = 5

def find(ctx):
    """functions from a name and a metadata map to a String, outermost first"""
    c = []
    for k, b in ctx.F.bodies.items():
        if b.get('crate') != 'metriken_exposition' or b.get('kind') not in ('Fn', 'AssocFn') or b['locals'][0]['ty'] != 'alloc::string::String': continue
        a = [l['ty'] for l in b['locals'][1:1 + b['argc']]]
        nm = [i for i, t in enumerate(a) if t in ('&str', '&alloc::string::String', 'alloc::string::String')]
        md = [i for i, t in enumerate(a) if t.startswith('&std::collections::hash::map::HashMap<alloc::string::String,alloc::string::String')]
        if len(nm) == 1 and len(md) == 1: c.append((k, nm[0], md[0]))
    if len(c) > 1:
        from .registry import call_graph
        g = call_graph(ctx)
        ks = {k for k, _, _ in c}
        inner = {x for k in ks for x in g.get(k, ()) if x in ks and x != k}
        c = [x for x in c if x[0] not in inner] or c
    return c

LOOK = ('get', 'remove')
MAPS = ('HashMap', 'BTreeMap')

class Canon(Build):
    """known facts: ('pend', term) a value that has to be appended; ('some'|'none', key); ('loop', keys) a loop over literal keys that ended;
    ('rest', excluded) a sorted walk over all pairs that ended; ('ex', strings) keys the current pair is known not to have"""
    def __init__(self, it, nm, md):
        self.nm, self.md = mk('arg', nm), mk('arg', md)
        self.types = {}
        self.fedby, self.errs, self.maybe = set(), {}, []
        for e in it.all_events('call'):
            if e.path in COLLS and e.result is not None: self.types[e.result] = it.outer_dt(e.site)
        self.srcs = {e.v[0] for k in ('next', 'next_back') for e in it.all_events(k)}
        self.containers = {t for s in self.srcs for t in subterms(s) if t in self.types}
        for e in it.all_events('call'):
            if e.v and last(e.path) in ('get', 'contains', 'contains_key', 'index', 'remove', 'get_key_value', 'get_or_insert_with') :
                for t in subterms(e.v[0]):
                    if t in self.types: self.containers.add(t)
        self.sets = self.literal_sets(it)
        ST = ['start', 'named'] + [(c, i) for i in range(7) for c in 'vs']
        def step(s, t):
            if s == 'start': return ('v', 0) if t == ('M',) else 'named' if t == ('NAME',) else BAD
            if s == 'named': return BAD
            c, i = s
            if c == 'v': return ('s', i) if t == '/' or t == ('SEP',) else BAD
            if not isinstance(t, tuple): return BAD
            if t[0] == 'K': j = IX.get(t[1]); return ('v', j) if j is not None and j > i else BAD
            if t[0] == 'L':
                js = [IX.get(k) for k in t[1]]
                if not js or None in js or js != list(range(js[0], js[0] + len(js))): return BAD
                return ('v', js[-1]) if i < js[0] or i == js[-1] else BAD
            if t[0] == 'R': return ('v', REST) if i <= REST else BAD
            return BAD
        super().__init__(it, Grammar(ST, step, 'start'), self.leaf_, lambda s: False, lambda t: False)
    def err(self, why, span=''): self.errs.setdefault(why, span)
    # -- what terms mean
    def literal(self, t):
        """the keys an array literal or a set filled from literals holds"""
        t = norm(self.it, t)
        if t.k == 'agg' and t.a[0] in ('[]',) : return tuple(x.a[0] for x in (norm(self.it, y) for y in t.a[3])) if t.a[3] and all(norm(self.it, y).k == 'str' for y in t.a[3]) else None
        if t.k in ('src',): return self.literal(t.a[0])
        if t.k == 'call' and t.a[0] == 'vec!' and t.a[1]: return self.literal(t.a[1][0])
        return self.sets.get(t) if hasattr(self, 'sets') else None
    def literal_sets(self, it):
        self.it = it
        out = {}
        for e in it.all_events('call'):
            if e.path == 'mrk_models::intr::coll_add' or last(e.path) in ('insert', 'push') and e.v and len(e.v) == 2:
                o = norm(it, e.v[0])
                if o not in self.types: continue
                x = norm(it, e.v[1])
                if x.k == 'str': l = (x.a[0],)
                elif x.k == 'item': l = self.literal(x.a[0])
                else: l = None
                out[o] = None if l is None or out.get(o, ()) is None else out.get(o, ()) + l
        return {o: l for o, l in out.items() if l is not None}
    def is_map(self, t):
        """a map that holds the metric's metadata"""
        t = norm(self.it, t)
        return t is self.md or (t in self.types and any(m in self.types[t] for m in MAPS))
    def ordered(self, t):
        """the container a walk visits in key order; 'hash' for one in arbitrary order; None when not known"""
        s = norm(self.it, t)
        ops = []
        while s.k == 'src': ops.append(s.a[1] if len(s.a) > 1 else ''); s = norm(self.it, s.a[0])
        if s is self.md: return 'hash', s, ops
        ty = self.types.get(s)
        if ty is None: return None, s, ops
        if 'BTreeMap' in ty or 'BTreeSet' in ty: return 'sorted', s, ops
        if 'HashMap' in ty or 'HashSet' in ty: return 'hash', s, ops
        if 'Vec' in ty: return 'vec', s, ops
        return None, s, ops
    def pair_item(self, r): return r.k == 'item' and self.literal(r.a[0]) is None and (self.ordered(r.a[0])[0] is not None)
    def part(self, r, p):
        """'key' or 'value': which part of a pair of the walk r a projection is"""
        f = tuple(e[1] for e in p if e[0] == 'f')
        ops = self.ordered(r.a[0])[2]
        if any('values' in o for o in ops): return 'value' if f == () else None
        if f == ('1',): return 'value'
        return 'key' if f in (('0',), ()) else None
    def key_of(self, t):
        """('K', literal) | ('L', literals) | ('I', item) of a key term"""
        t = norm(self.it, t)
        if t.k == 'str': return ('K', t.a[0])
        r, p = root(t)
        if r.k == 'item':
            l = self.literal(r.a[0])
            if l is not None and not p: return ('L', l, r)
            if self.pair_item(r) and self.part(r, p) == 'key': return ('I', r)
        return None
    def lookup_of(self, t):
        """the key looked up by a call"""
        if t.k == 'call' and len(t.a[1]) == 2 and last(t.a[0]) in LOOK and any(m in t.a[0] for m in MAPS) and self.is_map(t.a[1][0]): return self.key_of(t.a[1][1])
        return None
    def leaf_(self, it, n):
        if n is self.nm: return [('NAME',)]
        r, p = root(n)
        k = None
        if p == (('v', 'Some'), ('f', '0')): k = self.lookup_of(r)
        elif n.k == 'call' and last(n.a[0]) == 'index' and len(n.a[1]) == 2 and self.is_map(n.a[1][0]): k = self.key_of(n.a[1][1])
        elif r.k == 'item' and self.pair_item(r) and self.part(r, p) == 'value': k = ('I', r)
        elif r.k == 'item' and self.pair_item(r): return [('KEYTEXT',)]
        if k is None: return [('KEYTEXT',)] if self.key_of(n) is not None and n.k != 'str' else None
        if k[0] == 'K': return [('M',)] if k[1] == 'metric' else [k]
        if k[0] == 'L': return [k[:2]]
        return [('R',)]
    def src_of(self, n):
        """the pair walk a value term comes from"""
        for s in subterms(n):
            if s.k == 'item' and self.pair_item(s): return s
        return None
    # -- events
    def delta(self, P, st, kind, x, n):
        self.cur = P
        if kind == 'ev' and x.kind == 'call' and x.v:
            l = last(x.path)
            o = norm(self.it, x.v[0])
            if l.startswith('sort') and o in self.types: st = (st[0], st[1], st[2] | {('sorted', o)})
            if l == 'reverse' and o in self.types: self.err('the pairs are reversed', x.span)
            if l == 'remove' and len(x.v) == 2 and self.is_map(o):
                k = self.key_of(x.v[1])
                if k and k[0] in 'KL': st = (st[0], st[1], st[2] | {('removed', o, frozenset(k[1] if k[0] == 'L' else (k[1],)))})
            if x.path == 'format!': st = self.used(st, list(x.result.a[1]))
            if l in ('retain', 'clear', 'drain', 'truncate', 'dedup') and o in self.types: self.maybe.append('%s on %s' % (l, show(o)))
        return super().delta(P, st, kind, x, n)
    def create(self, st, o, c):
        if o in self.types and o in self.containers: return st
        if isinstance(c, tuple): c = self.lits([], st)
        return super().create(st, o, c)
    def used(self, st, ps):
        """discharge what the appended terms carry"""
        known = st[2]
        for p in ps:
            n = norm(self.it, self.P_resolve(p))
            for q in subterms(n):
                lf = self.leaf_(self.it, q) if q.k in ('proj', 'call', 'item') else None
                if lf is None: continue
                s = self.src_of(q)
                if lf[0][0] == 'R' and s is not None:
                    how, o, ops = self.ordered(s.a[0])
                    if how == 'hash' or how == 'vec' and ('sorted', o) not in known: self.err('values are appended in the iteration order of %s' % ('the metadata map' if o is self.md else show(o)))
                    self.excl(known, s, o)
                    self.fedby.add(o)
                if lf[0][0] == 'L': known = known - {('pend', ('L', i)) for i in subterms(q) if i.k == 'item' and self.literal(i.a[0]) == lf[0][1]}
                else: known = known - {('pend', (lf[0][0], s if lf[0][0] == 'R' else lf[0][1:]))}
        return (st[0], st[1], known)
    def excl(self, known, s, o):
        """every ignored key is known not to be the key of the pair that is used"""
        ex = set()
        for f in known:
            if f[0] == 'ex' and f[1] is s: ex |= f[2]
            if f[0] == 'removed' and f[1] is o: ex |= f[2]
            if f[0] == 'holds' and f[1] is o: ex |= f[2]
        miss = IGNORE - ex
        if miss and o in self.pruned():
            self.maybe.append('pairs are left out of %s' % show(o)); return
        if miss: self.err('the values of %s are appended among the other keys' % ', '.join(sorted(miss)))
    def append(self, st, e, obj, ps): return super().append(self.used(st, ps), e, obj, ps)
    def add(self, st, e):
        it = self.it
        o = self.P_resolve(e.v[0])
        if norm(it, o) in self.containers:
            x = norm(it, self.P_resolve(e.v[1]))
            s = self.src_of(x)
            if s is None: return (st[0], st[1], st[2] | {('holds', norm(it, o), frozenset())})
            known = st[2]
            so = self.ordered(s.a[0])[1]
            ty = self.types[norm(it, o)]
            ok = x.k == 'agg' and len(x.a[3]) == 2 and all(root(y)[0] is s for y in x.a[3]) and [tuple(q[1] for q in root(y)[1] if q[0] == 'f') for y in x.a[3]] == [('0',), ('1',)]
            if not ok and x is not s and not (root(x)[0] is s and ('Set' in ty or 'Vec' in ty)): self.err('collects %s instead of the pair itself' % show(x), e.span)
            ex = frozenset(k for f in known if f[0] == 'ex' and f[1] is s for k in f[2]) | frozenset(k for f in known if f[0] in ('removed', 'holds') and f[1] is so for k in f[2])
            old = [f for f in known if f[0] == 'holds' and f[1] is norm(it, o)]
            known = (known - set(old)) | {('holds', norm(it, o), ex & old[0][2] if old else ex)}
            return (st[0], st[1], known - {('pend', ('R', s))})
        st = self.used(st, [e.v[1]])
        c = dict(st[0]).get(o)
        if not isinstance(c, frozenset): return st
        x = self.content(e.v[1], st)
        if x is None: self.unknown.append((e, 'collects %s' % show(e.v[1]))); return self.put(st, o, None)
        G, out = self.G, set()
        for (f, em, cv, cu) in c:
            for (g, *_r) in x:
                if em in ('e', '?'): out.add((G.comp(f, g), 'n', True, 0))
                if em in ('n', '?'): out.add((G.comp(G.comp(f, G.lit([('SEP',)])), g), 'n', True, 0))
        return self.put(st, o, frozenset(out))
    def coll(self, t, st):
        t = self.P_resolve(t)
        c = dict(st[0]).get(t)
        if c is None and t.k == 'call' and is_conv(t.a[0]) and t.a[1]: return self.coll(t.a[1][0], st)
        if c is None and (t.k == 'agg' and t.a[0] == '[]' or t.k == 'call' and t.a[0] == 'vec!' and t.a[1] and t.a[1][0].k == 'agg'):
            xs = t.a[3] if t.k == 'agg' else t.a[1][0].a[3]
            c = self.lits([], st)
            for i, x in enumerate(xs):
                if i: c = self.cat(c, self.lits([('SEP',)], st))
                c = self.cat(c, self.content(x, st))
        return c
    def join(self, c, sep, st):
        return c if sep is not None and all(f == self.G.lit(['/']) for f, *_ in sep) else self.lits([('CHANGED',)], st)
    # -- edges
    def edge(self, P, st, x):
        if not x: return st
        objs, itst, known = st
        it = self.it
        if x[0] in ('next', 'next_back'):
            s = norm(it, x[1])
            l = self.literal(s)
            left = [f for f in known if f[0] == 'pend' and self.belongs(f[1], s, l)]
            for f in left:
                cs = [c for c in known if c[0] == 'cond' and c[1] is f[1][1]] if f[1][0] == 'R' else []
                sure = [c for c in cs if self.plain(c[2])]
                if cs and not sure: self.maybe.append('condition on a pair: %s' % show(cs[0][2]))
                else: self.err('%s is left out of the name%s' % (self.what(f[1]), ' where %s is %s' % (show(sure[0][2]), str(sure[0][3]).lower()) if sure else ''))
            known = known - set(left)
            if l is None:
                how, o, ops = self.ordered(s)
                if how is None: return super().edge(P, (objs, itst, known), x)
                if x[2] == 'Some' and o in self.filled() and not any(f[0] == 'holds' and f[1] is o for f in known): return None
                if x[0] == 'next_back': self.err('pairs are taken from the back')
                item = [t for t in self.items(s)]
                known = frozenset(f for f in known if not (f[0] in ('ex', 'cond', 'hit') and f[1] in item))
                if x[2] == 'Some': known = known | {('pend', ('R', i)) for i in item}
                else: known = known | {('rest', o)}
            else:
                if x[0] == 'next_back': self.err('keys are taken from the back')
                for i in self.items(s):
                    if x[2] == 'None':
                        for pr in self.compared(i):
                            if ('hit', pr) not in known: known = known | {('ex', pr, frozenset(l))}
                    if not self.looked(i): continue
                    known = known | ({('loop', l)} if x[2] == 'None' else {('pend', ('L', i))})
            return super().edge(P, (objs, itst, known), x)
        if x[0] == 'variant' and x[1].k == 'discr':
            t = norm(it, P.resolve(x[1].a[0]))
            k = self.lookup_of(t)
            if k is not None and isinstance(x[2], str): known = self.decided(known, k, x[2] == 'Some')
            if known is None: return None
        elif x[0] == 'bool':
            t, val = norm(it, P.resolve(x[1])), x[2]
            while t.k == 'un' and t.a[0] == 'Not': t, val = t.a[1], not val
            known = self.tested(known, t, val)
            if known is None: return None
        return super().edge(P, (objs, itst, known), x)
    def pruned(self):
        """collections elements are removed from in ways that are not followed"""
        if not hasattr(self, 'pruned_'): self.pruned_ = {norm(self.it, e.v[0]) for e in self.it.all_events('call') if e.v and last(e.path) in ('retain', 'drain', 'dedup', 'extract_if', 'split_off')}
        return self.pruned_
    def looked(self, i):
        """whether the keys of a loop over literals are looked up"""
        return any(e.v and len(e.v) == 2 and (last(e.path) in LOOK or last(e.path) in ('index', 'contains_key')) and norm(self.it, e.v[1]) is i for e in self.it.all_events('call'))
    def filled(self):
        """containers all of whose elements are added in ways that are followed"""
        if not hasattr(self, 'filled_'):
            a, b = set(), set()
            for e in self.it.all_events('call'):
                if not e.v or not (e.at and e.at[0].startswith('&mut ')): continue
                o = norm(self.it, e.v[0])
                if o in self.containers: (a if e.path in ('mrk_models::intr::coll_add', 'alloc::vec::Vec::push', 'intr::str_add') else b).add(o)
            self.filled_ = a - b
        return self.filled_
    def compared(self, i):
        """the pairs whose keys are compared with the keys of a loop over literals"""
        if not hasattr(self, 'cmp_'):
            self.cmp_ = {}
            for n in self.it.reach:
                for _, lb in self.it.succ.get(n, ()):
                    if not lb or lb[0] != 'bool': continue
                    t = norm(self.it, lb[1])
                    while t.k == 'un': t = t.a[1]
                    if t.k != 'call' or last(t.a[0]) not in ('eq', 'ne') or len(t.a[1]) != 2: continue
                    ks = [self.key_of(a) for a in t.a[1]]
                    for a, b in ((0, 1), (1, 0)):
                        if ks[a] and ks[b] and ks[a][0] == 'L' and ks[b][0] == 'I': self.cmp_.setdefault(ks[a][2], set()).add(ks[b][1])
        return self.cmp_.get(i, ())
    def items(self, s): return {norm(self.it, e.result) for e in self.it.all_events('next') if norm(self.it, e.v[0]) is s and e.result is not None}
    def belongs(self, p, s, l): return p[0] == 'R' and norm(self.it, p[1].a[0]) is s or p[0] == 'L' and norm(self.it, p[1].a[0]) is s
    def what(self, p): return 'the value of another key' if p[0] == 'R' else 'the value of %s' % ('/'.join(self.literal(p[1].a[0])) if p[0] == 'L' else p[1][0])
    def decided(self, known, k, some):
        if k[0] == 'K':
            f = ('some' if some else 'none', k[1])
            if ('none' if some else 'some', k[1]) in known: return None
            if f in known: return known
            known = known | {f}
            return known | {('pend', ('K', (k[1],)))} if some and k[1] != 'metric' else known
        if k[0] == 'L' and not some: return known - {('pend', ('L', k[2]))}
        if k[0] == 'I' and not some: return known - {('pend', ('R', k[1]))}
        return known
    def tested(self, known, t, val):
        if t.k == 'call' and len(t.a[1]) == 2:
            l = last(t.a[0])
            if l == 'contains_key' and self.is_map(t.a[1][0]):
                k = self.key_of(t.a[1][1])
                return self.decided(known, k, val) if k else known
            if l == 'contains':
                S, k = self.literal(t.a[1][0]), self.key_of(t.a[1][1])
                if S is not None and k and k[0] == 'I': return self.excluded(known, k[1], frozenset(S), val)
            if l in ('eq', 'ne'):
                for a, b in ((0, 1), (1, 0)):
                    k, s = self.key_of(t.a[1][a]), norm(self.it, t.a[1][b])
                    l = self.key_of(t.a[1][b]) if k and k[0] == 'I' else None
                    if l and l[0] == 'L':
                        return self.excluded(known, k[1], frozenset(l[1]), True) | {('hit', k[1])} if val == (last(t.a[0]) == 'eq') else known
                    if k and k[0] == 'I' and s.k == 'str': return self.excluded(known, k[1], frozenset([s.a[0]]), val == (last(t.a[0]) == 'eq'))
        s = self.src_of(t)
        if s is not None and ('pend', ('R', s)) in known:
            return known | {('cond', s, t, val)}
        return known
    def plain(self, t):
        """a condition on the text of a pair alone, not a test for a set of keys"""
        vs = [root(q) for q in subterms(t) if q.k == 'proj' and root(q)[0].k == 'item']
        val = bool(vs) and all(self.pair_item(r) and self.part(r, p) == 'value' for r, p in vs if any(e[0] == 'f' for e in p)) and any(e[0] == 'f' for _, p in vs for e in p)
        for q in subterms(t):
            if q.k in ('unk', 'phi', 'old') or q.k == 'mut' and not val: return False
            if val: continue
            if q in self.types and self.literal(q) is not None: return False
            if q.k == 'agg' and q.a[0] == '[]' or q.k == 'call' and not is_std(q.a[0]) and not q.a[0].startswith('mrk_models'): return False
        return True
    def excluded(self, known, s, S, hit):
        if not hit: return known | {('ex', s, S)}
        if S - IGNORE: self.err('the values of %s are left out' % ', '.join(sorted(S - IGNORE)))
        return known - {('pend', ('R', s))}
    # -- verdict
    def verdicts(self):
        """(ok | None, text) per return"""
        n = 0
        for c, itst, known, ns, v in self.results():
            n += 1
            if ('some', 'metric') in known: want = 'canonical'
            elif ('none', 'metric') in known: want = 'plain'
            else: want = None
            if c is None: yield None, 'text not followed: %s' % show(v); continue
            ends = {self.G.apply(f) for f, *_ in c}
            if want is None:
                yield (ends <= {'named'}) and None, 'names a metric %s without looking for its "metric" key' % show(v); continue
            if want == 'plain':
                yield ends <= {'named'}, 'a metric without a "metric" key is named %s instead of its snapshot name' % show(v); continue
            if ends & {'named'}: yield False, 'a metric with a "metric" key keeps its snapshot name'; continue
            good = all(isinstance(s, tuple) and s[0] == 'v' for s in ends)
            yield good, 'the parts of the name are out of order, unseparated or altered'
            if not good: continue
            for f in known:
                if f[0] == 'pend' and f[1][0] == 'K': yield False, '%s is left out of the name' % self.what(f[1])
            looked = {k for f in known if f[0] in ('some', 'none') and isinstance(f[1], str) for k in (f[1],)} | {k for f in known if f[0] == 'loop' for k in f[1]}
            miss = (set(ORDER) | {'id'}) - looked
            if miss: yield False, 'the value of %s is left out of the name' % ', '.join(sorted(miss))
            rest = [f[1] for f in known if f[0] == 'rest']
            if not any(o in self.fedby for o in rest): yield False, 'the values of the other keys are left out of the name'
        if not n: yield None, 'no return reached'
