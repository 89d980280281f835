"""Writes MANIFEST.json"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
sys_note = ('Bounded: random project layouts and action sets (seeded), all interleavings to a depth replayed from TLC, plus long random '
            'traces validated by TLC. Trusts TLC, the value encoding and the harness; one process, no threads.')
notes = {}
na = []
ids = [json.loads(l)['id'] for l in open(os.path.join(here, '..', 'properties.jsonl'))]
have = [i for i in ids if i not in [n['property'] for n in na]]
tech = {i: 'TLA+ specification PFC.tla: TLC-generated behaviours replayed on the code, recorded traces checked by TLC' for i in ids}
tech['C17'] = tech['C18'] = 'TLA+ specification Opts.tla: TLC-generated behaviours replayed on the code, recorded traces checked by TLC'
tech['C14'] = 'TLA+ specification Scaffold.tla: TLC-generated behaviours replayed on the code, recorded traces checked by TLC'
tech['C21'] = 'TLA+ specification Project.tla: TLC-generated behaviours replayed on the code, recorded traces checked by TLC'
import sys
sys.path.insert(0, os.path.join(here, '..', 'harness'))
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=[dict(property=i, quick_cmd='/opt/venv/bin/python harness/check.py %s quick' % i,
                      thorough_cmd='/opt/venv/bin/python harness/check.py %s thorough' % i,
                      technique=tech[i], level='model_checking', level_note=notes.get(i, sys_note)) for i in have],
         not_applicable=na)
if os.environ.get('SKIP'):
    m['checks'] = [c for c in m['checks'] if c['property'] not in os.environ['SKIP'].split(',')]
    m['not_applicable'] = [dict(property=i, reason='check not built yet') for i in os.environ['SKIP'].split(',')]
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
