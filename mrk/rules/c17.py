"""C17: parquet columns and schema."""
from ..frame import rule, Missing
from .. import columns
from . import c16
SCOPE = 'all'
TECHNIQUE = 'static analysis: segment summaries of the lists built in the schema and per row (elements and per-round contents of every loop, path-sensitive), over compiler MIR'
EXPLAIN = ("Three functions are followed on every path and the lists they fill are summarised as sequences of plain elements and loops, with what one round of each loop adds. Recording: every metric of every list of a pushed snapshot is entered under its canonical name with its own metadata, each kind in its own place. "
           "Schema: timestamp and duration, then one loop per kind, each round declaring the right number of columns of the right type, nullable, named and labelled after that metric; the names the writer keeps are filled one per round by the same walk. Rows: the columns handed to the record batch "
           "are timestamp, duration and one loop per kind in the declared order over those very names, each round adding columns of the declared number and type, for both histogram representations; the batch is checked against the declared schema and the representation asked is the one the schema was declared with.")
ASSUME = ["RecordBatch::try_new rejects columns that do not match the schema", "map iteration order is stable while a map is not changed"]

def check(ctx):
    rule(ctx, 'schema-names', 'ParquetSchema::push', lambda: columns.naming(ctx))
    rule(ctx, 'rows', 'ParquetWriter::push', lambda: columns.rows(ctx))
    rule(ctx, c16.R, 'canonical name', lambda: c16.names(ctx))
