"""writes /verif/MANIFEST.json from the table below and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'abstract interpretation of the monomorphic MIR (gated symbolic values, linear entailment)'
# property -> (technique, level, note)
CLAIMED = {}


def claim(pid, note, tech=TECH, level='proof'):
    CLAIMED[pid] = (tech, level, note)


exec(open(os.path.join(V, 'tools', 'claims.py')).read())

NA = {
    'C29': 'cost in time and memory over runtime sizes; static analysis here bounds termination (C20) but not cost',
    'C30': 'the distribution and period of a number sequence; not a property of the source that a dataflow argument can settle',
}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 -m sa.setup', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CLAIMED:
        t, l, n = CLAIMED[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 -m sa.run ' + p, 'thorough_cmd': 'env VERIF_TIER=thorough python3 -m sa.run ' + p, 'technique': t, 'level': l, 'level_note': n})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'check not built yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
