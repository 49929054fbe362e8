"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C02': 'explicit-state exploration of edit histories of the real class against a list-of-bits model',
    'C09': 'exhaustive enumeration of dependency graphs, executed on the real code against a graph evaluator',
    'C10': 'stateless exploration of thread interleavings under a controlled scheduler (preemption bounded) and of all operation histories',
    'C11': 'fault enumeration: every cut point of every packed record, executed on the real code',
    'C17': 'exhaustive enumeration of layouts and explicit-state exploration of bit-stream operation sequences',
    'C19': 'exhaustive exploration of operation histories, lazy and eager twins in lockstep',
    'C20': 'explicit-state exploration of look-ahead and read sequences, enumeration of selector programs',
    'C26': 'exhaustive exploration, up to a deviation bound, of the byte strings that a nondeterministic reference decoder can make up, replayed on the real code',
    'C21': 'fault enumeration: every cut point and every short read of every parse',
}
DEFAULT = 'bounded-exhaustive enumeration of programs and inputs, executed on the real code in lockstep with a reference model'
NOTE = ('Every case inside the stated bounds is executed on the current code and compared with an independent model; '
        'nothing is claimed beyond the bounds (layout sizes, value alphabets, history depths given in the evidence). '
        'Trusts the reference model in /verif/mc, the Python interpreter and its struct module.')
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(V, 'mc', 'props', p.lower() + '.py')):
        checks.append(dict(property=p, quick_cmd='./check.sh %s quick' % p, thorough_cmd='./check.sh %s thorough' % p,
                           technique='model checking: ' + TECH.get(p, DEFAULT), level='model_checking', level_note=NOTE))
    else:
        na.append(dict(property=p, reason='the check is not built yet'))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
                   notes='See DESIGN.md. No hooks in /repo: the checks use the public API only.'), f, indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
