"""Write MANIFEST.json from properties.jsonl and the property modules."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C19': 'Pure conversion functions of their arguments: no scheduling, '
           'time, I/O, randomness or history for a simulator to control. '
           '(The part that does involve a simulated choice, the delivery '
           'order, is C17.)',
    'C20': 'Pure predicates on one matrix and one label array; nothing '
           'nondeterministic or faulty can be injected. They are used inside '
           'the simulated runs of C01, C02, C10 and C11 only.',
    'C21': 'Argument validation is a pure function of the arguments and '
           'happens before any callback, draw or I/O. (That a rejected call '
           'leaves the published result alone is C12.)',
}
NOTE = ('Seeded search over simulated runs; no completeness claim. Trusts '
        'the small reference model in dst/ref.py, the simulator in '
        'dst/core.py and numpy/scipy/networkx/sklearn.')
checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(line)
    pid = d['id']
    if not os.path.exists(os.path.join(HERE, 'dst', 'props',
                                       pid.lower() + '.py')):
        if pid not in NA:
            NA[pid] = 'check not built yet'
        continue
    src = open(os.path.join(HERE, 'dst', 'props', pid.lower() + '.py')).read()
    ns = {}
    for name in ('NOTE', 'TECHNIQUE'):
        if '\n' + name + ' = ' in src:
            part = src[src.index('\n' + name + ' = ') + 1:]
            body = part[:part.index('\n\n')] if '\n\n' in part else part
            exec(body.split('\nPOINTS')[0], ns)
    checks.append({
        'property': pid,
        'quick_cmd': './run.sh ' + pid,
        'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + pid,
        'evidence_file': 'evidence/{}.json'.format(pid),
        'technique': ns.get('TECHNIQUE', 'deterministic simulation with '
                            'fault injection, seeded search'),
        'level': 'exploration',
        'level_note': (ns['NOTE'] + ' ' if 'NOTE' in ns else '') + NOTE})
m = {'version': 1,
     'setup_cmd': './run.sh --selftest',
     'checks': checks,
     'not_applicable': [{'property': k, 'reason': v}
                        for k, v in sorted(NA.items())],
     'notes': 'No hooks in /repo: every seam is an argument of the library, '
              'a standard-library function it calls, or a CPython monitoring '
              'event. run.sh --replay FILE re-executes a replay file.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
