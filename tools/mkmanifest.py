"""Writes MANIFEST.json from properties.jsonl"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = 'TLA+ specification model-checked with TLC; behaviours of the model and seeded random histories run on the real library, ' \
       'recorded traces validated step by step against the specification with TLC (spec/Trace.tla)'
NOTE = 'Within the bounds of the models every behaviour is checked against the declarative statement and replayed into the code; beyond ' \
       'them, every step of the sampled histories is decided by the specification. Trusted: TLC, the projection in harness/world.py.'
m = dict(version=1, setup_cmd='sh tools/setup.sh',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                      thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                      technique=TECH, level='model_checking', level_note=NOTE) for p in props],
         not_applicable=[], notes='No hooks: the checks observe /repo through its public Python API. See DESIGN.md.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
