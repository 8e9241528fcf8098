import json, os, sys
sys.path.insert(0, '/verif/vf')
import checks
NOTE = {}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
common = ('TLC decides every record against the TLA+ contract (exact arithmetic); the models of the specification are checked exhaustively within '
          'their bounds. Assurance for the code is per executed input: the recorded calls, chosen by directed generation from the specification, '
          'plus the screened calls of which the suspicious ones are recorded. Trusts TLC, the driver that records calls, and the compiler.')
m = {'version': 1,
     'setup_cmd': 'python3 -c "import sys; sys.exit(0)"',
     'checks': [{'property': p['id'],
                 'quick_cmd': 'VERIF_TIER=quick python3 vf/check.py ' + p['id'],
                 'thorough_cmd': 'VERIF_TIER=thorough python3 vf/check.py ' + p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': checks.TECHNIQUE.get(p['id'], 'TLA+ specification checked with TLC; trace validation of recorded calls'),
                 'level': 'model_checking',
                 'level_note': checks.LEVEL_NOTE.get(p['id'], '') + common}
                for p in props if p['id'] in checks.CHECKS],
     'not_applicable': [{'property': p['id'], 'reason': 'check under construction'} for p in props if p['id'] not in checks.CHECKS],
     'notes': 'No hooks: the public API exposes all that is recorded. known_findings.json lists repaired defects ("fixed") and would list accepted ones ("known").'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
