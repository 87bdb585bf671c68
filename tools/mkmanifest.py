#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a rule module."""
import os, json, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import importlib
NA = {
 'C21': 'Injectivity of the canonical name is a fact about run-time strings: values containing "/" make distinct metadata collide and whether a recording contains such values is unknown to any static argument over the code; the code plainly does not guarantee it (see DESIGN.md), so no static rule can show it.',
 'C22': 'Round-trip equality depends on the run-time behaviour of serde_json, rmp-serde, arrow and the parquet codec for every value; no sound static argument over this repository bounds it. The static part (which fields take part, version order, row and column construction) is claimed under C15, C17 and C18.',
 'C23': 'Bucket arithmetic lives in the external histogram crate and is about numeric ranges for every configuration and value; this repository only forwards to it (forwarding is claimed under C13).',
}
def main():
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    checks, na = [], []
    for p in props:
        i = p['id']
        f = '%s/mrk/rules/%s.py' % (V, i.lower())
        if os.path.exists(f):
            m = importlib.import_module('mrk.rules.' + i.lower())
            checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                           'technique': getattr(m, 'TECHNIQUE', 'static analysis: abstract interpretation of the compiler MIR'),
                           'level': 'other',
                           'level_note': m.EXPLAIN + ' Trusted: ' + '; '.join(m.ASSUME) + '.'})
        else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
    json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks;', [n['property'] for n in na])
main()
