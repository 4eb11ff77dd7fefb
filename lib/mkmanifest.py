"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
from core import ROOT
NOTES = {
 'C02': ('TLA+ state machine of the lexical grammar; exhaustive small texts replayed into ftml, recorded tokenizations validated by TLC',
         'Exact for every text explored: all short texts over alphabets of significant characters, plus recorded tokenizations of larger documents; trusts the transcription of character classes and TLC.'),
 'C03': ('TLA+ machine of substitution phases; exhaustive small texts replayed into ftml, recorded preprocessings validated by TLC',
         'Exact for every text explored (all short texts over alphabets of relevant characters, and recorded larger ones).'),
}
extra = os.path.join(ROOT, 'lib', 'notes.json')
if os.path.exists(extra):
    NOTES.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py build', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: everything is observed through the public API (harness/). TLA+ specifications are in spec/.'}
for p in props:
    i = p['id']
    if hasattr(checks, i):
        t, l = NOTES[i]
        m['checks'].append({'property': i, 'quick_cmd': f'python3 check.py {i}',
                            'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}',
                            'evidence_file': f'evidence/{i}.json', 'technique': t,
                            'level': 'model_checking', 'level_note': l})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'no check built yet'})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
