"""Shared anchors: found by crate and public name."""
from .frame import Missing
def metric_trait(ctx):
    for c in ctx.F.crates.values():
        for i in c['impls']:
            if (i.get('trait') or '').startswith('metriken_core::') and i['trait'].endswith('::Metric') or i.get('trait') == 'metriken_core::Metric': return i['trait']
    raise Missing('metriken_core::Metric')
