"""Writes DESIGN.md from tools/design_head.md, the RULEs of the checks, tools/design_notes.json and tools/design_tail.md."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, '/repo/src']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
notes = json.load(open(os.path.join(HERE, 'tools', 'design_notes.json')))
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip(), '']
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    m = importlib.import_module('checks.' + p['id'].lower())
    out += [f'### {p["id"]} {p["title"]}', '', '- *Cases and oracle:* ' + ' '.join(m.RULE.split()),
            '- *Sub-checks (quick / thorough cases):* ' + ', '.join(f'{s.name} {s.quick}/{s.thorough}' for s in m.SUBS) + '.',
            '- *Beyond the tests:* ' + p['why_tests_cant']]
    if p['id'] in notes:
        out.append('- *Bounds and decisions:* ' + notes[p['id']])
    out.append('')
out.append(open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
# catch table
rows = []
folder = os.path.join(HERE, 'seeded')
for name in sorted(os.listdir(folder)) if os.path.isdir(folder) else []:
    meta = json.load(open(os.path.join(folder, name, 'meta.json')))
    rows.append(f'| {name} | {meta["property"]} | {meta["what_it_breaks"]} | {meta.get("caught_by", "?")} |')
if rows:
    out += ['## Planted bugs', '', 'Which quick checks (VERIF_SEED=1) catch which planted change:', '', '| id | property | what it breaks | caught by |', '|---|---|---|---|'] + rows + ['']
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
