"""What string a function builds, as an element of a grammar automaton's transition monoid.

Every String (or Vec of strings) a path touches is summarised by how its text moves a small deterministic
automaton (the grammar the result has to match), by whether it is certainly (non-)empty, and by whether the
text of every element of the iterated source went into it.  Appending composes summaries, so the summaries are
finite however often a loop runs; the summary of the returned string decides the rule."""
from .q import *
from .core import T, mk, show, STR
from . import core

BAD = 'bad'

class Grammar:
    """step(state, token) -> state; a token is a character or a tuple chosen by the rule"""
    def __init__(self, states, step, start): self.states, self.step, self.start = tuple(states), step, start
    def ident(self): return tuple(self.states)
    def lit(self, toks):
        out = []
        for s in self.states:
            for t in toks: s = self.step(s, t) if s != BAD else BAD
            out.append(s)
        return tuple(out)
    def comp(self, f, g):
        ix = {s: i for i, s in enumerate(self.states)}
        return tuple(BAD if s == BAD else g[ix[s]] for s in f)
    def apply(self, f, s=None): return f[self.states.index(self.start if s is None else s)]

# a summary: (monoid element, emptiness: 'e' | 'n' | '?', covers earlier items, covers the current item (0, 1, 2+))
EMPTYLIKE = ('alloc::string::String::new', 'alloc::string::String::with_capacity', 'core::default::Default::default')
COLLS = ('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'mrk_models::intr::coll_new')

class Build:
    """product automaton: tracks summaries of string objects along all paths.
    leaf(it, term) -> list of tokens, None when not recognised; is_src(term): the source whose items must all appear;
    item_of(tokens) -> True when the tokens carry the current item's contribution"""
    def __init__(self, it, grammar, leaf, is_src, carries, extra=None, on_next=None):
        self.it, self.G, self.leaf, self.is_src, self.carries, self.extra, self.on_next = it, grammar, leaf, is_src, carries, extra, on_next
        self.bad = []           # (event, text)
        self.unknown = []
        init = ((), 'none', frozenset())       # objects, iteration state: none | some | done0 | done, known facts
        self.P = Prod(it, init, self.delta)
    # -- summaries
    def lits(self, toks, st):
        G = self.G
        c = sum(1 for t in toks if self.carries(t))
        return frozenset([(G.lit(toks), 'n' if any(not (isinstance(t, tuple)) for t in toks) or c else '?' if toks else 'e', st[1] in ('none', 'done0') or 'first' in st[2], min(c, 2))])
    def cat(self, a, b):
        if a is None or b is None: return None
        out = set()
        for (f, e, cv, cu) in a:
            for (g, e2, cv2, cu2) in b:
                out.add((self.G.comp(f, g), 'n' if 'n' in (e, e2) else 'e' if e == e2 == 'e' else '?', cv or cv2, min(cu + cu2, 2)))
        return frozenset(out) if len(out) <= 24 else None
    def content(self, t, st, d=0):
        """summary set of a string-valued term in product state st; None when not followed"""
        it, objs = self.it, dict(st[0])
        t = self.P_resolve(t)
        if t in objs: return objs[t]
        n = norm(it, t)
        lf = self.leaf(it, n)
        if lf is not None: return self.lits(lf, st)
        if n is not t and t.k == 'call' and t.a[1] and (is_conv(t.a[0]) or t.a[0] == 'format!' and len(t.a[1]) == 1) and d < 12: return self.content(t.a[1][0], st, d + 1)
        if t.k == 'agg' and t.a[0] in ('alloc::borrow::Cow', 'alloc::string::String') and len(t.a[3]) == 1: return self.content(t.a[3][0], st, d + 1)
        if t.k == 'str': return self.lits(list(t.a[0]), st)
        if t.k == 'int' and t.a[1] == 'char': return self.lits([chr(t.a[0])], st)
        if t.k == 'call':
            if t.a[0] in EMPTYLIKE: return self.lits([], st)
            if t.a[0] == 'format!': return self.pieces(t.a[1], st)
            if last(t.a[0]) in ('join', 'concat') and t.a[1]:
                c = self.coll(t.a[1][0], st)
                if c is None:
                    x = self.P_resolve(t.a[1][0])
                    while x.k == 'call' and x.a[1] and (is_conv(x.a[0]) or x.a[0] == 'vec!'): x = self.P_resolve(x.a[1][0])
                    if x.k != 'agg' or x.a[0] != '[]': return None
                    ps = list(x.a[3])
                    if len(t.a[1]) > 1: ps = [q for i, y in enumerate(ps) for q in ((t.a[1][1], y) if i else (y,))]
                    return self.pieces(ps, st)
                sep = self.content(t.a[1][1], st) if len(t.a[1]) > 1 else self.lits([], st)
                return self.join(c, sep, st)
            if t.a[0].startswith(core.STD) and t.a[1] and not last(t.a[0]).startswith('escape_') and last(t.a[0]) not in ('join', 'concat') and t.a[0] != 'vec!' and self.content(t.a[1][0], st, d + 1) is not None: return self.lits([('CHANGED',)], st)
        return None
    def coll(self, t, st):
        t = self.P_resolve(t)
        c = dict(st[0]).get(t)
        if c is None and t.k == 'call' and is_conv(t.a[0]) and t.a[1]: return self.coll(t.a[1][0], st)
        return c if c is not None and not isinstance(c, frozenset) else None
    def pieces(self, ps, st):
        c = self.lits([], st)
        for p in ps:
            c = self.cat(c, self.content(p, st) if isinstance(p, T) else None)
            if c is None: return None
        return c
    def join(self, c, sep, st):
        _, empty, elems, cv, cu = c
        if elems is None or sep is None: return None
        out = set()
        if empty in ('e', '?'): out.add((self.G.ident(), 'e', cv, cu))
        if empty in ('n', '?'):
            frontier = {(f, e) for f, e in elems}
            seen = set()
            while frontier:
                x = frontier.pop()
                if x in seen: continue
                seen.add(x)
                if len(seen) > 40: return None
                for (g, e2) in elems:
                    for (h, e3, _, _) in sep: frontier.add((self.G.comp(self.G.comp(x[0], h), g), 'n' if 'n' in (x[1], e2, e3) else '?'))
            out |= {(f, e, cv, cu) for f, e in seen}
        return frozenset(out)
    def P_resolve(self, t):
        if t.k != 'phi': return self.cur.resolve(t) if t.k == 'proj' or has_phi(t) else t
        # which value flowed into the phi on this path; a value whose creating call ran again since is the 'old' one
        it, path = self.it, self.cur.path()
        i = len(path) - 1
        while t.k == 'phi':
            nid, (loc, pth) = t.a
            while i > 0 and path[i][0] != nid: i -= 1
            if i <= 0: return t
            pn, k = path[i - 1]
            st = it.outs[pn][k][2] if k is not None and k < len(it.outs[pn]) else None
            if st is None or not (loc in st.env or loc[0] in ('M', 'S')): return t
            v = it.load_base(st, loc)
            for n in pth: v = it.project(v, ('f', n))
            t = it.vnf(st, v); i -= 1
        if t.k == 'call' and any(e.result is t for n, _ in path[i + 1:-1] for e in it.events.get(n, ()) if e.kind == 'call'): return mk('old', t.a[0], t.a[2])
        return t
    # -- transitions
    def delta(self, P, st, kind, x, n):
        self.cur = P
        if kind == 'edge': return self.edge(P, st, x)
        e = x
        it = self.it
        if self.extra:
            r = self.extra(self, P, st, e)
            if r is not None: return None if r == 'prune' else r
        if e.kind == 'append': return self.append(st, e, e.v[0], [e.v[1]])
        if e.kind == 'call' and e.v and e.path not in EMPTYLIKE:
            p, l = e.path, last(e.path)
            if p in ('alloc::string::String::push_str', 'alloc::string::String::push', 'core::fmt::Write::write_str', 'core::fmt::Write::write_char') and len(e.v) == 2: return self.append(st, e, e.v[0], [e.v[1]])
            if p == 'core::ops::arith::AddAssign::add_assign' and len(e.v) == 2 and 'String' in (e.at[0] if e.at else ''): return self.append(st, e, e.v[0], [e.v[1]])
            if p in ('core::fmt::Write::write_fmt', 'alloc::string::String::write_fmt') and len(e.v) == 2 and e.v[1].k == 'fmtargs': return self.append(st, e, e.v[0], list(e.v[1].a[0]))
            if p in ('mrk_models::intr::coll_add', 'alloc::vec::Vec::push', 'intr::str_add') and len(e.v) == 2: return self.add(st, e)
            if l in ('sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'reverse', 'reserve', 'shrink_to_fit', 'sort_by_cached_key', 'sort_unstable_by_key'): return st
            o = self.P_resolve(e.v[0])
            if e.at and e.at[0].startswith('&mut ') and (o in dict(st[0])) and p.startswith(('alloc::', 'core::', '[T]', 'str::')) and l not in ('deref_mut', 'as_mut_str', 'as_mut', 'borrow_mut', 'by_ref', 'next'):
                self.bad.append((e, 'text already put together is changed by %s' % short(p)))
        if e.kind == 'call' and e.result is not None:
            if e.path in COLLS: return self.create(st, e.result, ('coll', 'e', frozenset(), st[1] in ('none', 'done0') or 'first' in st[2], 0))
            if e.path in EMPTYLIKE or e.path == 'format!' or (is_conv(e.path) and (e.dt or '').startswith('alloc::string::String')):
                c = self.lits([], st) if e.path in EMPTYLIKE else self.pieces(e.result.a[1], st) if e.path == 'format!' else self.content(e.v[0], st) if e.v else None
                if c is not None: return self.create(st, e.result, c)
        return st
    def create(self, st, o, c):
        d = dict(st[0])
        if o in d: st = self.put(st, mk('old', o.a[0], o.a[2]), d[o])
        return self.put(st, o, c)
    def put(self, st, o, c):
        d = dict(st[0]); d[o] = c
        return (tuple(sorted(d.items(), key=lambda kv: kv[0].id)), st[1], st[2])
    def append(self, st, e, obj, ps):
        o = self.P_resolve(obj)
        c = self.cat(self.content(obj, st), self.pieces(ps, st))
        if c is None: self.unknown.append((e, 'appends %s' % ', '.join(show(p) for p in ps)))
        return self.put(st, o, c)
    def add(self, st, e):
        o = self.P_resolve(e.v[0])
        c = dict(st[0]).get(o)
        if isinstance(c, frozenset) : return self.append(st, e, e.v[0], [e.v[1]])     # collecting into a String appends
        if c is None: return st
        x = self.content(e.v[1], st)
        if x is None or c[2] is None:
            self.unknown.append((e, 'collects %s' % show(e.v[1]))); return self.put(st, o, ('coll', 'n', None, c[3], c[4]))
        return self.put(st, o, ('coll', 'n', c[2] | {(f, em) for f, em, _, _ in x}, c[3], min(c[4] + max(cu for *_, cu in x), 2)))
    def is_coll(self, c): return c is not None and not isinstance(c, frozenset)
    def edge(self, P, st, x):
        if not x: return st
        objs, itst, known = st
        if x[0] in ('next', 'next_back') and self.is_src(x[1]):
            if self.on_next:
                r = self.on_next(st, x)
                if r == 'prune': return None
            if x[2] == 'Some':
                if 'empty' in known or itst in ('done', 'done0'): return None
                def roll(c):
                    if c is None: return None
                    if self.is_coll(c): return (c[0], c[1], c[2], c[3] and (itst != 'some' or c[4] == 1), 0 if c[4] < 2 else 2)
                    return frozenset((f, e, cv and (itst != 'some' or cu == 1), 0 if cu < 2 else 2) for f, e, cv, cu in c)
                k2 = known | {'first'} if itst == 'none' else known - {'first'}
                return (tuple((o, roll(c)) for o, c in objs), 'some', k2)
            if itst == 'some': return (objs, 'done', known - {'first'})
            if 'nonempty' in known: return None
            return (objs, 'done0', known)
        if x[0] == 'bool' or x[0] == 'int':
            t, val = P.resolve(x[1]), x[2]
            if x[0] == 'int':
                if val is None and 0 not in x[3] or t.k != 'call' or last(t.a[0]) != 'len': return st
                t, val = mk('bin', 'Eq', t, core.INT(0, 'usize')), val == 0
            while t.k == 'un' and t.a[0] == 'Not': t, val = t.a[1], not val
            if t.k == 'bin' and t.a[1].k == 'call' and t.a[1].a[0] == 'mrk_models::intr::idx' and t.a[2].k == 'int' and itst == 'some':
                z = {('Eq', 0): True, ('Lt', 1): True, ('Ne', 0): False, ('Gt', 0): False, ('Ge', 1): False}.get((t.a[0], t.a[2].a[0]))
                if z is not None and (val == z) != ('first' in known): return None
            b = self.emptiness(t)
            if b is not None:
                who, pol = b
                empty = (val == pol)
                c = self.lookup(who, st)
                if c is not None:
                    if self.is_coll(c):
                        if c[1] == 'n' and empty: return None
                        if c[1] == 'e' and not empty: return None
                    else:
                        keep = frozenset(s for s in c if not (s[1] == 'n' and empty) and not (s[1] == 'e' and not empty))
                        if not keep: return None
                        o = self.P_resolve(who)
                        if o in dict(objs): return self.put(st, o, keep)
                    return st
                if self.is_src_base(who):
                    if empty and (itst in ('some', 'done') or 'nonempty' in known): return None
                    if not empty and (itst == 'done0' or 'empty' in known): return None
                    return (objs, itst, known | {'empty' if empty else 'nonempty'})
        return st
    def lookup(self, t, st):
        c = self.coll(t, st)
        return c if c is not None else self.content(t, st) if self.P_resolve(t) in dict(st[0]) or self.is_string(t) else None
    def is_string(self, t): return t.k == 'call' and (t.a[0] in EMPTYLIKE or t.a[0] == 'format!' or last(t.a[0]) in ('join', 'concat'))
    def is_src_base(self, t): return False
    def emptiness(self, t):
        """(object, polarity) of an emptiness test"""
        if t.k == 'call' and last(t.a[0]) == 'is_empty' and t.a[1]: return t.a[1][0], True
        if t.k == 'call' and last(t.a[0]) in ('eq', 'ne') and len(t.a[1]) == 2:
            for a, b in (t.a[1], t.a[1][::-1]):
                if b.k == 'str' and b.a[0] == '': return a, last(t.a[0]) == 'eq'
        if t.k == 'bin' and t.a[2].k == 'int' and t.a[1].k == 'call' and last(t.a[1].a[0]) == 'len' and t.a[1].a[1]:
            p = {('Eq', 0): True, ('Lt', 1): True, ('Le', 0): True, ('Ne', 0): False, ('Gt', 0): False, ('Ge', 1): False}.get((t.a[0], t.a[2].a[0]))
            if p is not None: return t.a[1].a[1][0], p
        return None
    # -- results
    def results(self):
        """(summary set or None, iteration state, known, node state, value term) of every return"""
        for nd in exits(self.it):
            ev = [e for e in self.it.events[nd] if e.kind == 'return'][0]
            for st, ns in list(self.P.ends.get(nd, ())):
                self.P.cur = ns
                self.cur = self.P
                v = self.P.resolve(ev.v[0], ns)
                yield self.content(v, st), st[1], st[2], ns, norm(self.it, v)

# ---- rewriting a string character by character
APPENDS = ('alloc::string::String::push_str', 'alloc::string::String::push', 'core::fmt::Write::write_str', 'core::fmt::Write::write_char', 'mrk_models::intr::coll_add', 'intr::str_add', 'core::fmt::Write::write_fmt', 'core::ops::arith::AddAssign::add_assign')
class CharMap:
    """what each pass of a loop over the characters of a string appends, for given characters"""
    def __init__(self, it, src, chars):
        self.it, self.src, self.events, self.out, self.ok = it, src, [], {c: set() for c in chars}, True
        starts = [(n, k) for n in it.reach for k, (m, l) in enumerate(it.succ.get(n, ())) if l and l[0] == 'next' and l[1] is src and l[2] == 'Some']
        for c in chars:
            for n, k in starts: self.walk(c, n, k)
    def lit(self, c, t):
        it = self.it
        t = norm(it, t)
        if t.k == 'str': return t.a[0]
        if t.k == 'int' and t.a[1] == 'char': return chr(t.a[0])
        if t.k == 'item' and t.a[0] is self.src: return c
        if t.k == 'call' and t.a[0] == 'format!':
            ps = [self.lit(c, x) for x in t.a[1]]
            return None if None in ps else ''.join(ps)
        if t.k == 'call' and t.a[0] in EMPTYLIKE: return ''
        return None
    def value(self, c, t):
        if t.k == 'item' and t.a[0] is self.src: return ord(c)
        if t.k == 'cast': return self.value(c, t.a[1])
        if t.k == 'int': return t.a[0]
        if t.k == 'bool': return t.a[0]
        if t.k == 'un' and t.a[0] == 'Not':
            v = self.value(c, t.a[1]); return None if v is None else not v
        if t.k == 'bin':
            a, b = self.value(c, t.a[1]), self.value(c, t.a[2])
            f = {'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b, 'BitOr': lambda: a | b, 'BitAnd': lambda: a & b}.get(t.a[0])
            return None if a is None or b is None or f is None else f()
        if t.k == 'call' and last(t.a[0]) in ('eq', 'ne') and len(t.a[1]) == 2:
            a, b = self.value(c, t.a[1][0]), self.value(c, t.a[1][1])
            return None if a is None or b is None else (a == b) == (last(t.a[0]) == 'eq')
        return None
    def walk(self, c, n0, k0):
        it = self.it
        todo, steps = [([(n0, k0)], '')], 0
        while todo:
            path, out = todo.pop()
            steps += 1
            if steps > 3000 or len(path) > 300: self.ok = False; return
            n = it.succ[path[-1][0]][path[-1][1]][0]
            stop = False
            for e in it.events.get(n, ()):
                if e.kind == 'next' and e.v[0] is self.src: self.out[c].add(out); stop = True; break
                if e.kind in ('append',) or e.kind == 'call' and e.path in APPENDS and len(e.v) == 2:
                    ps = list(e.v[1].a[0]) if e.v[1].k == 'fmtargs' else [e.v[1]]
                    xs = [self.lit(c, resolve(it, p, path + [(n, None)])) for p in ps]
                    if None in xs: self.ok = False; return
                    out += ''.join(xs)
                    if e not in self.events: self.events.append(e)
                if e.kind == 'return': self.out[c].add(None); stop = True; break       # leaves before the last character
            if stop: continue
            es = it.succ.get(n, ())
            ints = [l[2] for _, l in es if l and l[0] == 'int' and l[2] is not None]
            for k, (m, l) in enumerate(es):
                if l and l[0] in ('bool', 'int'):
                    v = self.value(c, resolve(it, l[1], path + [(n, None)]))
                    if v is not None:
                        if l[0] == 'bool' and bool(v) != l[2]: continue
                        if l[0] == 'int' and (v != l[2] if l[2] is not None else v in ints): continue
                todo.append((path + [(n, k)], out))
