"""C16: canonical metric names."""
from ..frame import rule, Missing
from ..q import *
from .. import canon, columns
SCOPE = 'all'
TECHNIQUE = 'static analysis: the text built on every path is abstracted to the transition monoid of a name grammar, with a typestate of the metadata keys used, over compiler MIR'
EXPLAIN = ("The function from a metric's name and metadata to its column name (found by its signature) is followed on every path. The text returned is summarised by how it drives an automaton for metric { '/' name | op | state | direction in that order } { '/' other key } [ '/' id ]: where the metadata has no "
           "\"metric\" key it has to be the snapshot name alone, otherwise a word of that grammar. A typestate requires every naming key found to reach the text, every other key of the walk to reach it unless it is one of the ignored ones, exactly the ignored keys to be kept out, and the walk "
           "that feeds the text to be over a sorted container; text fed from a hash map's iteration is reported. The places that name columns (schema, row lookup) must use this function on the metric's own name and metadata.")
ASSUME = ["BTreeMap iterates in key order and HashMap in arbitrary order"]
R = 'canonical-name'

def names(ctx):
    fs = canon.find(ctx)
    if not fs: ctx.undecided(R, 'canonical name', 'no function from a name and metadata to a String'); return
    for k, nm, md in fs[:1]:
        sp = ctx.F.bodies[k].get('span', '')
        it = ctx.run(k, cache=False)
        C = canon.Canon(it, nm, md)
        vs = list(C.verdicts())
        unk = C.unknown or C.maybe or any(ok is None for ok, _ in vs)
        for why, s in sorted(C.errs.items()):
            if C.unknown and 'iteration order' not in why: ctx.undecided(R, 'keys used', why)
            else: ctx.ob(R, 'keys used', False, why, s or sp)
        for e, why in C.bad: ctx.ob(R, 'text', False, why, e.span)
        for e, why in C.unknown[:4]: ctx.undecided(R, 'text', why)
        for why in C.maybe[:4]: ctx.undecided(R, 'text', why)
        n = 0
        for ok, why in vs:
            if ok is None: ctx.undecided(R, 'text', why)
            elif ok or not unk: ctx.ob(R, 'text', ok, why, sp); n += 1
        if not unk: ctx.floor(R, 'names returned', n, 2)

def check(ctx):
    rule(ctx, R, 'canonical name', lambda: names(ctx))
    rule(ctx, 'names-columns', 'schema and rows', lambda: columns.naming(ctx))
    rule(ctx, 'rows', 'ParquetWriter::push', lambda: columns.rows(ctx))
