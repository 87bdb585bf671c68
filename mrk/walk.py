"""A walk over a function that visits every element of a source: facts known on the current path, and what was
done for the current element, with infeasible branch combinations pruned."""
from .q import *
from .core import T, mk

def narrow(known, t, names):
    """known plus: t is one of the variants names; None when that cannot be"""
    if t.k == 'agg' and t.a[1] is not None: return known if t.a[1] in names else None
    for (u, w) in known:
        if u is t and isinstance(w, frozenset):
            n = w & names
            if not n: return None
            return (known - {(u, w)}) | {(u, n)}
    return known | {(t, names)}

def truth(known, t, val):
    while t.k == 'un' and t.a[0] == 'Not': t, val = t.a[1], not val
    if t.k == 'bool': return known if t.a[0] == val else None
    if (t, not val) in known: return None
    if deep_arith(t): return known        # a loop counter unrolled: not worth remembering
    return known | {(t, val)}

def deep_arith(t, d=0):
    if d > 3: return True
    if t.k == 'bin': return deep_arith(t.a[1], d + 1) or deep_arith(t.a[2], d + 1)
    if t.k in ('un', 'cast'): return isinstance(t.a[1], T) and deep_arith(t.a[1], d)
    if t.k == 'proj': return deep_arith(t.a[0], d)
    return False

def forget(known, r):
    """known without what was found out about an earlier result of the same call"""
    if r.k != 'call': return known
    return frozenset((t, w) for t, w in known if not any(q is r or q.k == 'call' and q.a[2] == r.a[2] and q.a[0] == r.a[0] for q in subterms(t))) if known else known

def variant_of(known, t):
    """the variants t may be, None when nothing is known"""
    if t.k == 'agg' and t.a[1] is not None: return frozenset([t.a[1]])
    for (u, w) in known:
        if u is t and isinstance(w, frozenset): return w
    return None

def is_var(known, t, v): return variant_of(known, t) == frozenset([v])

class Walk:
    """hooks: is_src(src), event(P, st, e) -> ext, item_start(ext), item_end(P, st), edge_ext(P, ext, label) -> ext"""
    def __init__(self, it, init):
        self.it = it
        self.P = Prod(it, ('none', frozenset(), init), self.delta)
    def is_src(self, s): return False
    def item_start(self, ext): return ext
    def item_end(self, P, st): pass
    def edge_ext(self, P, ext, x): return ext
    def event(self, P, st, e): return st[2]
    def val(self, P, t, ns=None): return norm(self.it, P.resolve(t, ns))
    def deep(self, P, t, d=0):
        """the value with the phis inside call arguments resolved too"""
        if d > 12: return t
        if t.k == 'call': return mk('call', t.a[0], tuple(self.deep(P, self.val(P, a), d + 1) for a in t.a[1]), t.a[2])
        if t.k == 'proj':
            b = self.deep(P, t.a[0], d + 1)
            return self.it.project(b, t.a[1]) if b is not t.a[0] else t
        if t.k == 'cast': return mk('cast', t.a[0], self.deep(P, t.a[1], d + 1))
        return t
    def delta(self, P, st, kind, x, n):
        itst, known, ext = st
        if kind == 'ev':
            if x.kind == 'call' and x.result is not None: known = forget(known, x.result); st = (itst, known, ext)
            e2 = self.event(P, st, x)
            return None if e2 is None else (itst, known, e2)
        if not x: return st
        if x[0] in ('next', 'next_back') and self.is_src(x[1]):
            if itst == 'some': self.item_end(P, st)
            if itst == 'done' and x[2] == 'Some': return None
            k2 = frozenset((t, w) for t, w in known if not any(s.k == 'item' and self.is_src(s.a[0]) for s in subterms(t)))
            return ('some' if x[2] == 'Some' else 'done', k2, self.item_start(ext))
        if x[0] == 'variant' and x[1].k == 'discr':
            t = self.val(P, x[1].a[0])
            known = narrow(known, t, x[2] if isinstance(x[2], frozenset) else frozenset([x[2]]))
            if known is None: return None
        elif x[0] == 'bool':
            known = truth(known, self.val(P, x[1]), x[2])
            if known is None: return None
        ext = self.edge_ext(P, ext, x)
        return None if ext is None else (itst, known, ext)
    def results(self):
        for nd in exits(self.it):
            ev = [e for e in self.it.events[nd] if e.kind == 'return'][0]
            for st, ns in self.P.ends.get(nd, ()):
                yield st, self.val(self.P, ev.v[0], ns), nd, ns
