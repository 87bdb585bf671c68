"""C18: one row per snapshot."""
from ..frame import rule, Missing
from .. import columns
from . import c15, c16
SCOPE = 'all'
TECHNIQUE = 'static analysis: per-path value flow from the snapshot into each written column, with segment summaries of the row, over compiler MIR'
EXPLAIN = ("The row writer is followed on every path. Per round of each column loop the value written is traced: it must be the value field of what a lookup under this round's schema name found among the snapshot's metrics of the same kind, and null exactly where that lookup found nothing; the lookup table must have been filled, once per metric of the "
           "pushed snapshot, under canonical names. Histogram columns must be fed by one whole walk over the bucket counts (or the sparse form's indices and counts), each element entered once and unchanged. Every column gets exactly one value per snapshot, timestamp and duration come from the snapshot "
           "in nanoseconds with null only for a snapshot without duration, and success is reported only after exactly one batch was written.")
ASSUME = ["arrow's array constructors and ArrowWriter::write store what they are given"]

def acc(ctx):
    S = ctx.adt(c15.X, 'Snapshot')
    c15.accessors(ctx, S, c15.variants(ctx, S))

def check(ctx):
    rule(ctx, 'rows', 'ParquetWriter::push', lambda: columns.rows(ctx))
    rule(ctx, 'schema-names', 'ParquetSchema::push', lambda: columns.naming(ctx))
    rule(ctx, 'accessors', 'Snapshot accessors', lambda: acc(ctx))
