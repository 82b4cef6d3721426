#!/usr/bin/env python3
"""Writes MANIFEST.json.  BUILT maps each built check to its level note."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
COMMON = ("Seeded search over schedules and faults, not exhaustive: a violation found is real and replays from its file; "
          "silence means none was met in the explored runs. ")
BUILT = {
 'C01': "Real search crate under a scheduler that interleaves, abandons and breaks sessions; trusts the graph model of the check.",
 'C02': "Real agendas (search crate, min-max-heap) against a multiset model with accounted items; ties may go either way.",
 'C03': "Real unique-heap crate against a set-and-priority model, with simulated hash functions and clone failures.",
 'C04': "Real vecmultimap crate against a map model, interleaved writers and short-lived adapters.",
}
TECH = {}
exec(open(os.path.join(here, 'tools', 'built.py')).read()) if os.path.exists(os.path.join(here, 'tools', 'built.py')) else None
NA = {
 'C20': "printing and parsing one value is a pure function without I/O or schedule; the parts that meet storage damage are C05-C08",
 'C23': "algebraic laws of a number type, pure functions of two values",
}
m = {'version': 1, 'setup_cmd': './run.sh build', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in BUILT:
        m['checks'].append({
            'property': i,
            'quick_cmd': './run.sh %s quick' % i,
            'thorough_cmd': './run.sh %s thorough' % i,
            'technique': TECH.get(i, 'deterministic simulation with fault injection: seeded search over schedules and faults, checked against a reference model'),
            'level': 'exploration',
            'level_note': COMMON + BUILT[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'the check is not built yet')})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
