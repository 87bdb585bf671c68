"""C06: wrappers forward."""
from ..frame import rule
from .. import shared
SCOPE = 'core'
TECHNIQUE = 'static analysis: path-sensitive value-flow (forwarding) analysis of every wrapper metric over compiler MIR'
EXPLAIN = ("For every Metric implementation generic over the metric it wraps (dynamic, static and lazy wrappers, found by their bounds), on every path each method returns exactly the wrapped metric's answer (nothing before a lazy "
           "one exists) and provide runs the declared context first and the wrapped metric's provide afterwards, unconditionally, with builder data looked up under the request's own tag. Entry and owner accessors return the very "
           "pointer, name and description stored; formatted() and metadata() use what the metric provides, in either form, and defaults only when nothing was provided; static entries carry exactly what they are given.")
ASSUME = ["a wrapped metric answers consistently (user code)"]
def check(ctx):
    rule(ctx, 'forwards', 'wrappers', lambda: shared.forwarding(ctx))
    rule(ctx, 'accessors', 'accessors', lambda: shared.accessors(ctx))
    rule(ctx, 'formatter', 'formatted', lambda: shared.formatted(ctx))
    rule(ctx, 'metadata', 'metadata', lambda: shared.metadata_accessor(ctx))
    rule(ctx, 'static-entry', 'entry_v1', lambda: shared.static_entry(ctx))
