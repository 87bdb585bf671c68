"""Sequence rules for iterator types made of ordered segments.

An iterator value owns segments S1..Sn (std iterators); the sequence it stands
for is S1 followed by S2 ...  Each overridden method is checked to describe
that sequence: items are taken from a segment only when everything that comes
before it (after it, for the reverse methods) is exhausted, an item taken is
the item delivered, nothing is delivered after a miss, offsets and counts add
up over the segments."""
from .q import *
from .core import ITER, DEI

FWD = {'next', 'nth', 'fold', 'count', 'size_hint', 'for_each', 'last'}
LAST = (ITER + 'last',)
LEN = ('core::iter::traits::exact_size::ExactSizeIterator::len',)

class Spec:
    def __init__(self, ctx, rule, adt, label, mapitem=None, roots=None):
        self.ctx, self.rule, self.adt, self.label, self.mapitem = ctx, rule, adt, label, mapitem
        self.I = 'core::iter::traits::iterator::Iterator'
        self.D = 'core::iter::traits::double_ended::DoubleEndedIterator'
        self.segs = None
    def key(self, name):
        for tr in (self.I, self.D, 'core::iter::traits::exact_size::ExactSizeIterator'):
            k = self.ctx.timpl(self.adt, tr, name, need=False)
            if k: return k
    def ob(self, meth, ok, detail, span=''):
        self.ctx.ob(self.rule, '%s::%s' % (self.label, meth), ok, detail, span)

    # ---- one-item methods: next / next_back / last / nth / nth_back
    def seg(self, t):
        """index of the segment a term denotes, or None"""
        while t not in self.segs and t.k == 'src' and t.a[1] == 'into_iter': t = t.a[0]
        return self.segs.index(t) if t in self.segs else None

    def bases(self, it):
        out = []
        for e in it.all_events('next', 'next_back'):
            if e.v[0] not in out and root(e.v[0])[0] is mk('arg', 0): out.append(e.v[0])
        for e in it.all_events('call'):
            if e.path and last(e.path) in ('nth', 'nth_back', 'size_hint', 'len', 'count', 'last', 'next', 'next_back') and e.v and e.path.startswith('core::iter') and root(e.v[0])[0] is mk('arg', 0) and e.v[0].k == 'proj' and e.v[0] not in out: out.append(e.v[0])
        return out

    def step(self, meth, back, nth=False, init_facts=None, assume=None):
        key = self.key(meth)
        if key is None: return False
        it = self.ctx.run(key, cache=False, **({'assume': assume} if assume else {}), **({'nomodel': LAST} if meth == 'last' else {}))
        segs = self.segs
        if not segs: return False
        running = meth == 'last' and any(e.kind == 'next' and self.seg(e.v[0]) is not None for e in it.all_events('next'))
        if running: back = False       # walks to the end from the front and keeps the latest item
        order = list(range(len(segs)))
        if back: order.reverse()
        bad = []
        n_arg = mk('arg', 1)
        names = ('next_back', 'nth_back', 'last') if back else ('next', 'nth')
        unknown = [e for e in it.all_events('call') if e.path and e.path.startswith('core::iter') and self.seg(e.v[0]) is not None
                   and last(e.path) not in ('next', 'next_back', 'nth', 'nth_back', 'last', 'len', 'size_hint', 'is_empty', 'count', 'clone')]
        if unknown: self.ctx.undecided(self.rule, '%s::%s' % (self.label, meth), 'unmodelled step %s' % unknown[0].path); return True
        if nth and len(segs) == 1 and not back:
            i2 = self.ctx.run(key, cache=False, nomodel=(ITER + 'skip',), **({'assume': assume} if assume else {}))
            for e in i2.all_events('call', 'next'):
                b = norm(i2, e.v[0]) if e.v else None
                if b is None or b.k != 'call' or b.a[0] != ITER + 'skip' or self.seg(b.a[1][0]) is None: continue
                op = 'next' if e.kind == 'next' else last(e.path)
                if op not in ('next', 'nth'): continue
                amounts = [norm(i2, b.a[1][1])] + ([norm(i2, e.v[1])] if op == 'nth' else [])
                rest = [x for x in amounts if not (x.k == 'int' and x.a[0] == 0)]
                self.ob(meth, rest == [n_arg], 'skips %s items; expected the requested offset' % ' + '.join(map(show, amounts)), e.span)
                return True
        looped = any(e.v[0].k == 'rangeit' for e in it.all_events('next'))
        if nth and not any(e.kind == 'call' and last(e.path) in ('nth', 'nth_back', 'advance_by', 'skip') and e.v and self.seg(e.v[0]) is not None for e in it.all_events('call')):
            # stepping one by one: the number of steps is a run-time count
            ends = {e.kind for e in it.all_events('next', 'next_back') if self.seg(e.v[0]) is not None}
            if ends and ends != {'next_back' if back else 'next'}: self.ob(meth, False, 'skips from the wrong end'); return True
            self.ctx.undecided(self.rule, '%s::%s' % (self.label, meth), 'skips by repeated stepping; the number of steps is not followed'); return True
        def delta(P, s, kind, x, node):
            done, got, pend, consumed = s      # exhausted segments, item taken, pending nth call, consumed segments
            if kind == 'ev':
                b = x.v[0] if x.v else None
                i = self.seg(b) if b is not None else None
                if i is None: return s
                op = x.kind if x.kind in ('next', 'next_back') else last(x.path) if x.kind == 'call' else None
                if op in ('next', 'next_back', 'nth', 'nth_back', 'last'):
                    if (op in ('next', 'nth')) == back:
                        bad.append(('takes from the %s of %s' % ('front' if back else 'back', show(b)), x)); return None
                    for j in order[:order.index(i)]:
                        if j not in done and not (nth and self.beyond(it, node, segs[j], n_arg, j in consumed or self.replaced(it, node, segs[j]))): bad.append(('takes from %s before %s is exhausted' % (show(b), show(segs[j])), x)); return None
                    if got is not None and not looped and not running: bad.append(('an item of %s is taken and then discarded' % show(b), x)); return None
                    if op in ('nth', 'nth_back'):
                        a = P.resolve(x.v[1])
                        prev = [segs[j] for j in order[:order.index(i)]]
                        if not self.offset_ok(it, a, n_arg, prev, consumed, P):
                            bad.append(('skips %s in %s; expected the requested offset%s' % (show(a), show(b), ' less the lengths of ' + ', '.join(map(show, prev)) if prev else ''), x)); return None
                        return (done, got, x.result, consumed | {i})
                    if op == 'last': return (done | {i}, got, x.result, consumed | {i})
                    return (done, got, None, consumed | {i})
                if op == 'count': return (done | {i}, got, pend, consumed | {i})
            else:
                if x and x[0] in ('next', 'next_back'):
                    i = self.seg(x[1])
                    if i is not None:
                        if x[2] == 'None': return (done | {i}, got, None, consumed)
                        src = [e for e in it.events[node] if e.kind == x[0]]
                        return (done, src[-1].result if src else got, None, consumed)
                if x and x[0] == 'variant' and x[1].k == 'discr' and pend is not None and x[1].a[0] is pend:
                    i = self.seg(pend.a[1][0])
                    if x[2] == 'Some': return (done, pend, None, consumed)
                    return (done | {i}, got, None, consumed)
                if x and x[0] == 'bool' and pend is not None and x[1].k == 'call' and x[1].a[1] and x[1].a[1][0] is pend and last(x[1].a[0]) in ('is_some', 'is_none'):
                    some = x[2] == (last(x[1].a[0]) == 'is_some'); i = self.seg(pend.a[1][0])
                    return (done, pend, None, consumed) if some else (done | {i}, got, None, consumed)
            return s
        P = Prod(it, (frozenset(), None, None, frozenset()), delta)
        for why, e in bad[:1]: self.ob(meth, False, why, e.span)
        if bad: return True
        nret = 0
        for n, v in returns(it):
            for (s, ns) in P.ends.get(n, ()):
                done, got, pend, consumed = s
                nret += 1
                r = norm(it, P.resolve(v, ns))
                if r.k == 'agg' and r.a[1] == 'None':
                    self.ob(meth, len(done) == len(segs) or looped, 'returns None although %s may still hold items' % ', '.join(show(x) for i, x in enumerate(segs) if i not in done))
                elif r.k == 'agg' and r.a[1] == 'Some':
                    want = got
                    if want is None: self.ob(meth, looped, 'returns %s, which is not an item of the sequence' % show(r)); continue
                    if running: self.ob(meth, len(done) == len(segs), 'returns an item although %s may still hold later ones' % ', '.join(show(x) for i, x in enumerate(segs) if i not in done))
                    self.ob(meth, self.same_item(it, r.a[3][0], want), 'returns %s instead of the item taken, %s' % (show(r.a[3][0]), show(want)))
                elif r is pend or (got is not None and r is got) or (pend is None and r.k == 'call' and r is got):
                    # the result of the last segment's own step, handed on as it is
                    i = self.seg((pend or got).a[1][0])
                    rest = [j for j in order[order.index(i) + 1:]] if got is None else []
                    if rest and nth and i == order[0] and any(self.beyond(it, m, segs[i], n_arg, True, within=True) for m, _ in P.path(ns)): rest = []
                    self.ob(meth, not rest, 'returns None although %s may still hold items' % ', '.join(show(segs[j]) for j in rest))
                elif r.k == 'call' and got is not None and self.same_item(it, r, got): self.ob(meth, True, '')
                else: self.ob(meth, False, 'returns %s, which is not an item of the sequence' % show(r))
        if not nret: self.ctx.undecided(self.rule, '%s::%s' % (self.label, meth), 'no return reached')
        return True

    def same_item(self, it, v, want):
        v = norm(it, v)
        if want.k == 'call':       # Option returned by nth/last
            w = it.project(it.project(want, ('v', 'Some')), ('f', '0'))
        else: w = want
        cands = [w]
        if self.mapitem: 
            return self.mapitem(it, v, w)
        return v is w or v is want

    def replaced(self, it, node, seg):
        """the segment was overwritten on the way here"""
        r, fs = fields(seg)
        return any(f[:len(fs)] == fs or fs[:len(f)] == f for n in [node] + [m for m, _ in it.succ.get(node, ()) if m in it.instate] for f, _ in updates(it.load_base(it.instate[n], ('M', r))))
    def beyond(self, it, node, seg, n, consumed, within=False):
        """the requested offset is known to lie beyond this segment, which has been skipped as a whole"""
        if not consumed: return False
        for k, v in it.instate[node].facts.items():
            if isinstance(k, T) and k.k == 'discr': k = k.a[0]
            if isinstance(k, T) and k.k == 'call' and last(k.a[0]) == 'checked_sub' and isinstance(v, frozenset) and v == {'None' if within else 'Some'}:
                l = self.lenof(it, k.a[1][1])
                if k.a[1][0] is n and l is not None and [x[0] for x in l] == [seg]: return True
            if not isinstance(k, T) or k.k != 'bin' or k.a[0] not in ('Lt', 'Ge', 'Le', 'Gt') or v not in (True, False): continue
            op, a, b = k.a
            if not v: op = {'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt', 'Gt': 'Le'}[op]
            if within and op in ('Gt', 'Ge'): a, b, op = b, a, {'Gt': 'Lt', 'Ge': 'Le'}[op]
            if within and op != 'Lt': continue
            if not within and op in ('Le', 'Lt'): a, b, op = b, a, {'Le': 'Ge', 'Lt': 'Gt'}[op]
            l = self.lenof(it, b)
            if a is n and l is not None and [x[0] for x in l] == [seg]: return True
        return False
    def offset_ok(self, it, a, n, prev, consumed, P):
        terms = self.linear(it, a)
        if terms is None: return False
        pos, negs = terms
        if pos != [n]: return False
        want = sorted(prev, key=lambda t: t.id)
        have = sorted([x[0] for x in negs], key=lambda t: t.id)
        return have == want
    def linear(self, it, t, d=0):
        """t as n - sum of segment lengths -> ([n], [(segment, term)])"""
        if t.k == 'bin' and t.a[0] == 'Sub' or t.k == 'call' and last(t.a[0]) in ('saturating_sub', 'wrapping_sub') or t.k == 'proj' and t.a[0].k == 'proj' and t.a[0].a[0].k == 'call' and last(t.a[0].a[0].a[0]) == 'checked_sub':
            if t.k == 'bin': x, y = t.a[1], t.a[2]
            elif t.k == 'call': x, y = t.a[1][:2]
            else: x, y = t.a[0].a[0].a[1][:2]
            l = self.linear(it, x, d + 1)
            s = self.lenof(it, y)
            if l is None or s is None: return None
            return (l[0], l[1] + s)
        return ([t], [])
    def lenof(self, it, t):
        if t.k == 'bin' and t.a[0] == 'Add':
            a, b = self.lenof(it, t.a[1]), self.lenof(it, t.a[2])
            return None if a is None or b is None else a + b
        if t.k == 'call' and last(t.a[0]) == 'len' and t.a[1] and t.a[1][0] in self.segs:
            # the length must have been read before the segment was consumed
            return [(t.a[1][0], t)] if self.len_fresh(it, t) else None
        if t.k == 'proj' and t.a[0].k == 'call' and last(t.a[0].a[0]) == 'size_hint' and t.a[0].a[1][0] in self.segs:
            return [(t.a[0].a[1][0], t)] if self.len_fresh(it, t.a[0]) else None
        if t.k == 'call' and last(t.a[0]) == 'len' and t.a[1] and t.a[1][0].k == 'call' and last(t.a[1][0].a[0]) == 'as_slice' and t.a[1][0].a[1][0] in self.segs:
            return [(t.a[1][0].a[1][0], t)]
        return None
    def len_fresh(self, it, t):
        """no path consumes the segment before reading its length"""
        seg = t.a[1][0]
        site = t.a[2]
        def delta(s, kind, x, n):
            if kind == 'ev':
                if x.kind in ('next', 'next_back') and x.v[0] is seg or x.kind == 'call' and last(x.path) in ('nth', 'nth_back') and x.v and x.v[0] is seg: return 'used'
                if x.kind == 'call' and x.site == site and s == 'used': hit.append(x)
            return s
        hit = []
        product(it, 'fresh', delta)
        return not hit

    # ---- aggregates
    def hint(self, meth='size_hint', assume=None):
        key = self.key(meth)
        if key is None: return False
        exact = bool([i for i in self.ctx.impls('core::iter::traits::exact_size::ExactSizeIterator') if i['self'].split('<')[0] == self.adt])
        it = self.ctx.run(key, cache=False, **({'assume': assume} if assume else {}))
        for n, v in returns(it):
            for r in nalts(it, v):
                if r.k == 'call' and last(r.a[0]) == 'size_hint' and len(self.segs) == 1: self.ob(meth, r.a[1][0] is self.segs[0], 'hint of %s instead of the sequence' % show(r.a[1][0])); continue
                if r.k != 'agg' or len(r.a[3]) != 2: self.ctx.undecided(self.rule, '%s::%s' % (self.label, meth), 'shape of %s' % show(r)); continue
                lo, hi = r.a[3]
                for l in nalts(it, lo):
                    s = self.addends(it, l, 0)
                    if not exact and (l.k == 'int' and l.a[0] == 0 or s is not None and len(set(s)) == len(s)): self.ob(meth, True, ''); continue
                    self.ob(meth, s is not None and sorted(s) == list(range(len(self.segs))), 'lower length hint %s is not the sum over all segments' % show(l))
                for h in nalts(it, hi):
                    if h.k == 'agg' and h.a[1] == 'None':
                        # an absent upper hint is never wrong, unless the type promises an exact length
                        f = it.instate[n].facts
                        sure = any(isinstance(k, T) and k.k == 'discr' and f[k] == frozenset(['None']) or isinstance(k, T) and k.k == 'discr' and 'None' in f[k] for k in f)
                        self.ob(meth, not exact or sure, 'no upper length hint although an exact length is promised'); continue
                    if h.k == 'agg' and h.a[1] == 'Some': h = norm(it, h.a[3][0])
                    s = self.addends(it, h, 1)
                    self.ob(meth, s is not None and sorted(s) == list(range(len(self.segs))), 'upper length hint %s is not the sum over all segments' % show(h))
        return True
    def addends(self, it, t, which):
        t = norm(it, t)
        if t.k == 'phi' or has_phi(t):
            al = nalts(it, t)
            rs = [self.addends(it, a, which) for a in al if a is not t]
            return rs[0] if rs and all(r is not None and sorted(r) == sorted(rs[0]) for r in rs) else None
        if t.k == 'bin' and t.a[0] == 'Add': return self.cat(it, t.a[1], t.a[2], which)
        if t.k == 'call':
            n = last(t.a[0])
            if n in ('saturating_add', 'checked_add', 'wrapping_add'): return self.cat(it, t.a[1][0], t.a[1][1], which)
            if n in ('len', 'count') and t.a[1][0] in self.segs: return [self.segs.index(t.a[1][0])]
        if t.k == 'proj':
            r, p = root(t)
            if r.k == 'call' and last(r.a[0]) == 'checked_add': return self.addends(it, r, which)
            if r.k == 'call' and last(r.a[0]) == 'size_hint' and p and p[0][0] == 'f':
                return [self.segs.index(r.a[1][0])] if r.a[1][0] in self.segs else None
        if t.k == 'agg' and t.a[1] == 'Some': return self.addends(it, t.a[3][0], which)
        return None
    def cat(self, it, a, b, w):
        x, y = self.addends(it, a, w), self.addends(it, b, w)
        return None if x is None or y is None else x + y

    def count(self, meth='count', own_len=False, assume=None):
        key = self.key(meth)
        if key is None: return False
        it = self.ctx.run(key, cache=False, **({'assume': assume} if assume else {}))
        for n, v in returns(it):
            for r in nalts(it, v):
                if r.k == 'call' and last(r.a[0]) in ('len', 'count') and r.a[1] and r.a[1][0] is mk('arg', 0): self.ob(meth, True, ''); continue
                s = self.addends(it, r, 0)
                if s is None:
                    # a counting loop: every item adds one
                    if any(e.kind in ('next', 'next_back') for e in it.all_events()) and r.k in ('bin', 'int', 'phi'):
                        self.loop_count(it, meth); return True
                    self.ob(meth, False, 'count %s is not the number of items' % show(r)); continue
                self.ob(meth, sorted(s) == list(range(len(self.segs))), 'count %s does not add every segment exactly once' % show(r))
        return True
    def loop_count(self, it, meth):
        bad = []
        def delta(P, s, kind, x, node):
            done = s
            if kind == 'edge' and x and x[0] in ('next', 'next_back') and x[2] == 'None' and self.seg(x[1]) is not None: return done | {self.seg(x[1])}
            return s
        P = Prod(it, frozenset(), delta)
        ok = all(len(s) == len(self.segs) for n in exits(it) for s, _ in P.ends.get(n, ()))
        self.ob(meth, ok, 'counts without visiting every segment to its end')

    def fold(self, meth, back, assume=None):
        key = self.key(meth)
        if key is None: return False
        it = self.ctx.run(key, cache=False, **({'assume': assume} if assume else {}))
        segs = self.segs; order = list(range(len(segs)))
        if back: order.reverse()
        bad = []
        f, init = mk('arg', 2), mk('arg', 1)
        calls = [e for e in it.all_events('call') if e.path == '<indirect>' and e.v and e.v[0] is f]
        if not calls:
            self.ctx.undecided(self.rule, '%s::%s' % (self.label, meth), 'the folding function is never called here'); return True
        def delta(P, s, kind, x, node):
            done, pend, acc = s
            if kind == 'ev':
                if x.kind in ('next', 'next_back') and self.seg(x.v[0]) is not None:
                    i = self.seg(x.v[0])
                    if (x.kind == 'next') == back: bad.append(('takes %s from the wrong end' % show(x.v[0]), x)); return None
                    for j in order[:order.index(i)]:
                        if j not in done: bad.append(('folds %s before %s is exhausted' % (show(x.v[0]), show(segs[j])), x)); return None
                    if pend is not None: bad.append(('an item of the sequence is not folded', x)); return None
                    return s
                if x in calls:
                    if len(x.v) < 3 or pend is None: bad.append(('the folding function is called without a new item', x)); return None
                    if not self.same_item(it, P.resolve(x.v[2]), pend): bad.append(('folds %s instead of the item taken, %s' % (show(x.v[2]), show(pend)), x)); return None
                    a = P.resolve(x.v[1])
                    if a is not acc and norm(it, a) is not norm(it, acc): bad.append(('the accumulator passed on is %s, not the previous result' % show(a), x)); return None
                    return (done, None, x.result)
            else:
                if x and x[0] in ('next', 'next_back') and self.seg(x[1]) is not None:
                    if x[2] == 'None': return (done | {self.seg(x[1])}, pend, acc)
                    src = [e for e in it.events[node] if e.kind == x[0]]
                    return (done, src[-1].result, acc)
            return s
        P = Prod(it, (frozenset(), None, init), delta)
        for why, e in bad[:1]: self.ob(meth, False, why, e.span)
        if bad: return True
        for n, v in returns(it):
            for (s, ns) in P.ends.get(n, ()):
                done, pend, acc = s
                self.ob(meth, len(done) == len(segs) and pend is None, 'stops folding before %s is exhausted' % ', '.join(show(x) for i, x in enumerate(segs) if i not in done))
                r = P.resolve(v, ns)
                self.ob(meth, r is acc or norm(it, r) is norm(it, acc), 'returns %s instead of the final accumulator' % show(r))
        return True

    def all(self, want_back=True, assume=None):
        """discover the segments from the stepping methods, then check every overridden method"""
        k = self.key('next')
        it = self.ctx.run(k, cache=False, **({'assume': assume} if assume else {}))
        A = {'assume': assume}
        self.segs = self.bases(it)
        self.ob('next', bool(self.segs), 'stepping takes nothing from the sequence')
        if not self.segs: return 0
        n = 0
        n += bool(self.step('next', False, **A))
        n += bool(self.step('nth', False, True, **A))
        n += bool(self.hint(**A))
        n += bool(self.count(**A))
        n += bool(self.count('len', **A))
        n += bool(self.fold('fold', False, **A))
        n += bool(self.step('last', True, **A))
        n += bool(self.step('next_back', True, **A))
        n += bool(self.step('nth_back', True, True, **A))
        n += bool(self.fold('rfold', True, **A))
        for m in ('for_each', 'any', 'all', 'find', 'find_map', 'try_for_each', 'try_fold'): n += bool(self.visit(m, False, **A))
        for m in ('rfind', 'try_rfold'): n += bool(self.visit(m, True, **A))
        n += bool(self.position(**A))
        return n

    # ---- methods that hand items to a function until it says stop
    STOP = {'any': True, 'all': False, 'find': True, 'rfind': True, 'find_map': 'Some'}
    def visit(self, meth, back, assume=None):
        key = self.key(meth)
        if key is None: return False
        it = self.ctx.run(key, cache=False, **({'assume': assume} if assume else {}))
        segs = self.segs; order = list(range(len(segs)))
        if back: order.reverse()
        bad = []
        arg = 2 if meth in ('try_fold', 'try_rfold') else 1
        f = mk('arg', arg)
        calls = [e for e in it.all_events('call') if e.path == '<indirect>' and e.v and e.v[0] is f]
        copies = [e for e in it.all_events('next', 'next_back') if self.seg(e.v[0]) is None and any(s.k == 'call' and last(s.a[0]) == 'clone' and s.a[1] and s.a[1][0] in segs for s in subterms(e.v[0]))]
        if copies: self.ob(meth, False, 'walks a copy, so the items handed out stay in the sequence', copies[0].span); return True
        if not calls:
            self.ctx.undecided(self.rule, '%s::%s' % (self.label, meth), 'the function given is never called here'); return True
        stop = self.STOP.get(meth)
        def delta(P, s, kind, x, node):
            done, pend, res, halt = s
            if kind == 'ev':
                if x.kind in ('next', 'next_back') and self.seg(x.v[0]) is not None:
                    i = self.seg(x.v[0])
                    if halt: bad.append(('goes on although the function given said stop', x)); return None
                    if (x.kind == 'next') == back: bad.append(('takes %s from the wrong end' % show(x.v[0]), x)); return None
                    for j in order[:order.index(i)]:
                        if j not in done: bad.append(('visits %s before %s is exhausted' % (show(x.v[0]), show(segs[j])), x)); return None
                    if pend is not None and res is None: bad.append(('an item of the sequence is not visited', x)); return None
                    return (done, None, None, False)
                if x in calls:
                    if pend is None or res is not None: bad.append(('the function given is called without a new item', x)); return None
                    a = P.resolve(x.v[-1])
                    if a.k not in ('ref', 'addr') and not self.same_item(it, a, pend): bad.append(('visits %s instead of the item taken, %s' % (show(a), show(pend)), x)); return None
                    return (done, pend, x.result, False)
            else:
                if x and x[0] in ('next', 'next_back') and self.seg(x[1]) is not None:
                    if x[2] == 'None': return (done | {self.seg(x[1])}, None, None, halt)
                    src = [e for e in it.events[node] if e.kind == x[0]]
                    return (done, src[-1].result, None, halt)
                if x and res is not None and x[0] == 'bool' and x[1] is res and stop in (True, False): return (done, pend, res, x[2] == stop)
                if x and res is not None and x[0] == 'variant' and x[1].k == 'discr' and x[1].a[0] is res: return (done, pend, res, x[2] in ('Some', 'Err', 'Break') if meth == 'find_map' or x[2] not in ('Some', 'None') else x[2] == 'None')
            return s
        P = Prod(it, (frozenset(), None, None, False), delta)
        for why, e in bad[:1]: self.ob(meth, False, why, e.span)
        if bad: return True
        for n, v in returns(it):
            for (s, ns) in P.ends.get(n, ()):
                done, pend, res, halt = s
                r = norm(it, P.resolve(v, ns))
                if not halt and meth.startswith('try_') and len(done) < len(segs): self.ctx.undecided(self.rule, '%s::%s' % (self.label, meth), 'the stop test is not followed'); continue
                if not halt: self.ob(meth, len(done) == len(segs), 'stops before %s is exhausted' % ', '.join(show(x) for i, x in enumerate(segs) if i not in done))
                if meth in ('any', 'all') and r in (TRUE, FALSE): self.ob(meth, (r is TRUE) == (halt == (meth == 'any')), 'returns %s when %s' % (show(r), 'the function stopped it' if halt else 'everything was visited'))
                if meth in ('find', 'rfind', 'find_map') and r.k == 'agg' and r.a[1] in ('Some', 'None'):
                    self.ob(meth, (r.a[1] == 'Some') == halt, 'returns %s when %s' % (show(r), 'the function stopped it' if halt else 'everything was visited'))
                    if halt and r.a[1] == 'Some' and meth != 'find_map': self.ob(meth, self.same_item(it, r.a[3][0], pend), 'returns %s instead of the item found' % show(r))
        return True
    def position(self, assume=None):
        key = self.key('position')
        if key is None: return False
        it = self.ctx.run(key, cache=False, **({'assume': assume} if assume else {}))
        calls = [e for e in it.all_events('call') if e.path and last(e.path) == 'position' and e.v and self.seg(e.v[0]) is not None]
        if not calls: self.ctx.undecided(self.rule, '%s::position' % self.label, 'the position is not computed from the segments\' own'); return True
        for n, v in returns(it):
            for r in nalts(it, v):
                if r.k == 'call' and last(r.a[0]) == 'position' and self.seg(r.a[1][0]) is not None:
                    self.ob('position', self.seg(r.a[1][0]) == 0, 'the position within %s is returned without the lengths before it' % show(r.a[1][0]))
                elif r.k == 'agg' and r.a[1] == 'Some':
                    ps = [s for s in subterms(r.a[3][0]) if s.k == 'call' and last(s.a[0]) == 'position']
                    for s in ps:
                        i = self.seg(s.a[1][0])
                        if i: self.ob('position', any(x.k == 'bin' and x.a[0] == 'Add' or x.k == 'call' and last(x.a[0]).endswith('_add') for x in subterms(r.a[3][0])), 'the position within %s is returned without the lengths before it' % show(s.a[1][0]))
        return True
