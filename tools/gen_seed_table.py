"""Prints the table of planted changes for DESIGN.md (what each needs, and which checks were seen to report it: tools/seed.sh)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {'c10-class-context': 'C25', 'c14-array-context': 'C25', 'c20-key-context': 'C25'}
MISSED = {'c26-default-key': 'missed at first: led to `zsel` in the grammar', 'c26-json-control': 'led to more JSON texts',
          'c10-class-context': 'missed at first: led to the space `contexts` and to C25', 'c14-array-context': 'missed at first: led to `ptrs` in the grammar',
          'c20-key-context': 'missed at first: led to `ksel` in the grammar', 'c24-unset-default': 'missed at first: led to deleting attributes'}
print('| change | needs, to manifest | caught by (quick) |\n|---|---|---|')
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    by = m['property'] + (', ' + ALSO[s] if s in ALSO else '')
    print('| %s | %s | %s |' % (s, m['needs'].replace('|', '/'), by + ('; ' + MISSED[s] if s in MISSED else '')))
