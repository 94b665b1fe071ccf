"""Writes properties.jsonl and MANIFEST.json from props.py (run by hand after editing props.py)."""
import json, os
from props import PROPS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
            'quantifier': {'over': p['over'], 'text': ' '.join(p['forall'].split())},
            'why_tests_cant': ' '.join(p['why'].split()),
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
checks = []
for p in PROPS:
    if p.get('check', True):
        checks.append({'property': p['id'], 'quick_cmd': f"bash run.sh {p['id']} quick",
                       'thorough_cmd': f"bash run.sh {p['id']} thorough",
                       'technique': 'property-based testing: ' + ' '.join(p['technique'].split()),
                       'level': 'exploration', 'level_note': ' '.join(p['note'].split())})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
     'notes': 'Pure Python; nothing is built. Every check imports SPECULA from /repo with a private byte-code cache. '
              'Replay one failure with: bash run.sh <ID> --replay replays/<ID>-<family>.json'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
