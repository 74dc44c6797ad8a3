"""writes MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
import sys; sys.path.insert(0, ROOT + '/tools')
import scopes
NOTE = ('Every seeded behaviour of the Quint specification (thousands of operations per run, aimed at thresholds of the current state) is replayed '
        'through the real blueprints on an in-process ledger; every outcome and the complete observable state must equal what the specification prescribes. '
        'Bounded by simulation: sampled behaviours of %s. Trusts the specification as reading of the intended behaviour, the native build of the blueprints '
        'standing in for the wasm build, and the ledger simulator.')
m = {
 'version': 1,
 'setup_cmd': 'bash tools/setup.sh',
 'hooks': {'guard': 'none', 'enable': 'no hooks in /repo are needed: the harness links the blueprints natively and observes public state', 'source_commits': []},
 'checks': [{
   'property': p['id'],
   'quick_cmd': 'python3 tools/check.py %s' % p['id'],
   'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py %s' % p['id'],
   'technique': 'Quint specification: simulated behaviours replayed on the real code, state and outcomes compared',
   'level': 'exploration',
   'level_note': NOTE % ('profiles ' + ', '.join(x for x, _ in scopes.PROFILES[p['id']])),
 } for p in props if p['id'] in scopes.PROFILES],
 'not_applicable': [{'property': p['id'], 'reason': 'no check yet'} for p in props if p['id'] not in scopes.PROFILES],
 'notes': 'Specification in spec/*.qnt, one profile per area in spec/profiles. See DESIGN.md.',
}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
