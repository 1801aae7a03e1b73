"""Writes /verif/KNOWN_FINDINGS.json: no open finding; the repairs made in /repo. Not run by any check."""
import json, os, subprocess
PROPS = {'80ff52b': 'C10', '9bd59d8': 'C02', '13319ee': 'C04',
'1f0c6a9': 'C06', 'f976834': 'C09', 'f5340b0': 'C16', 'a01c5cd': 'C16', '4a433a5': 'C16', '39a5228': 'C05', '2f7e0e9': 'C05', '4a38ce6': 'C11', '31f8b1a': 'C04', '0585e71': 'C02',
'3803b3e': 'C02', 'f03ae6b': 'C11', '8ea9a93': 'C12', '3ad9bc3': 'C08', '6c82487': 'C09', '4ea4b6e': 'C09', '27d0fa6': 'C15', '970f528': 'C22', '7c604e2': 'C17', 'c878846': 'C10', '717d393': 'C11',
'17f442e': 'C11', 'fc7500c': 'C10', '5784655': 'C16', '5f93b35': 'C02', '59ef904': 'C07', 'ce42b7c': 'C15', 'c820c66': 'C15', '09e3ced': 'C15', '2eacffd': 'C19', '51ee015': 'C20', '0a22411': 'C11', 'f99a501': 'C12', '7ad65d6': 'C10', '00f9893': 'C15'}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixed = []
for line in reversed(log):
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        fixed.append(f'fixed: property={PROPS[h]} {h} {s[5:]}')
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(dict(known=[], fixed=fixed), open(os.path.join(here, 'KNOWN_FINDINGS.json'), 'w'), indent=1)
print(len(fixed))
