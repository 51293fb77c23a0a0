"""Writes /verif/MANIFEST.json."""
import json
import sys
NA = {
 'C25': 'Not claimed: the oracle of the property is an external YAML parser, and the statement is false on the unchanged code for whole classes of texts (such as "123", "a: b" in a key or a text that looks like a date), which no contract on the functions of /repo states without restating the grammar of YAML.',
}
sys.path.insert(0, '/verif')
import goalsets
PROOF = ('contract-based deductive verification: the verifier in vc/ interprets the methods of /repo (read from its current '
    'source) and their executable contracts (contracts/) on the same symbolic inputs and z3 discharges every obligation; '
    'the same contracts monitored at run time stand in, bounded, for what is listed as undecided')
RUNTIME = ('contract monitoring, bounded: the executable contracts (contracts/, concrete/) are evaluated next to the real '
    'code on generated schemas and values')
NOTE = 'Bounded: nothing is claimed beyond the cases run.'
def entry(i):
    level = goalsets.LEVEL.get(i, 'exploration')
    if level == 'proof':
        goals = goalsets.GOALS[i]
        note = 'Goals: %s. For all configurations, values and lengths; assumptions in the evidence.' % ', '.join(goals)
        if goalsets.BOUNDED.get(i):
            note += ' Bounded stand-in only: %s.' % '; '.join(goalsets.BOUNDED[i])
    else:
        note = NOTE
    return {'property': i, 'quick_cmd': 'python3 run.py %s' % i, 'thorough_cmd': 'python3 run.py %s --thorough' % i,
        'technique': PROOF if level == 'proof' else RUNTIME, 'level': level, 'level_note': note}
ids = ['C%02d' % i for i in list(range(1, 25)) + [26, 27, 28]]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': [entry(i) for i in ids],
    'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())]},
    open('/verif/MANIFEST.json', 'w'), indent=1)
