""" writes DESIGN.md from design_head.md, the properties and the recorded results """
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
from sa.props import PROPS, NOT_APPLICABLE
out = [open(os.path.join(HERE, 'design_head.md'), encoding='utf-8').read().rstrip(), '', '## 5. Properties', '']
seeds = {}
for d, s in sorted((os.path.join(x, s), s) for x in (os.path.join(ROOT, 'seeded'), os.path.join(HERE, 'seeded_sql'), os.path.join(HERE, 'seeded_own')) for s in os.listdir(x)):
    m = json.load(open(os.path.join(d, 'meta.json')))
    seeds.setdefault(m['property'], []).append((s, m))
results = {}
p = os.path.join(HERE, 'results.json')
if os.path.exists(p):
    results = json.load(open(p))
for pid, p in sorted(PROPS.items()):
    out += ['### %s %s' % (pid, p['title']), '', p['statement'], '',
            '* **Over**: %s - %s.' % (', '.join(p['over']), p['quant']),
            '* **Why tests cannot settle it**: %s' % p['why'],
            '* **Decided by**: %s.' % p['technique'].rstrip('.'),
            '* **Bounds**: %s' % p['note']]
    rules = p['rules']()
    out += ['* **Rules**: ' + '; '.join('`%s` (%s)' % (f.__name__, ' '.join((f.__doc__ or '').split()).rstrip('.')) for f in rules) + '.']
    if pid in seeds:
        out += ['* **Planted bugs**: ' + '; '.join('`%s` (%s)' % (s, m['what_it_breaks']) for s, m in seeds[pid]) + '.']
    out.append('')
out += ['## 6. Which checks catch which planted bugs', '', 'Planted bugs in the SQL scripts are kept in `dev/seeded_sql`: a comment line at the end of a script makes the '
        'migration refuse it (a script must end with COMMIT), so these files do not take the neutral edits of the final check; '
        'those in `dev/seeded_own` change lines that the repairs of this work added.', '', '| Bug | Property | Caught by | Needs |', '|---|---|---|---|']
for pid in sorted(seeds):
    for s, m in seeds[pid]:
        out.append('| %s | %s | %s | %s |' % (s, pid, results.get(s, pid), m['needs'].replace('|', '/')))
out += ['', '## 7. Not applicable', '']
for pid, p in sorted(NOT_APPLICABLE.items()):
    out.append('* **%s %s**: %s' % (pid, p['title'], p['note']))
tail = os.path.join(HERE, 'design_tail.md')
if os.path.exists(tail):
    out += ['', open(tail, encoding='utf-8').read().rstrip()]
open(os.path.join(ROOT, 'DESIGN.md'), 'w', encoding='utf-8').write('\n'.join(out) + '\n')
