"""Rewrites the generated tail of DESIGN.md (everything after the marker): repaired defects, limitations, false alarms, planted bugs."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- below: written by tools/mkdesign.py -->'
p = H + '/DESIGN.md'
head = open(p).read().split(MARK)[0].rstrip() + '\n\n' + MARK + '\n'
notes = open(H + '/tools/notes.md').read().rstrip() + '\n'
k = json.load(open(H + '/known_findings.json'))['fixed']
by = {}
for x in k:
    _, prop, h, s = x.split(' ', 3)
    by.setdefault((h, s), []).append(prop.split('=')[1])
fx = '\n## Genuine defects found and repaired\n%d `fix:` commits in /repo; each was first reported by a check on the unrepaired tree (the check still reports it there).\n\n| commit | property | what failed |\n|----|----|----|\n' % len(by)
fx += ''.join(f"| {h} | {' '.join(v)} | {s} |\n" for (h, s), v in by.items())
rows = []
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(f'{H}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks'].splitlines()[0][:140]} |")
pl = f"\n## Planted bugs\n{len(rows)} changes under `seeded/`, written in rounds from the property texts and the code. All of them are caught by the quick check of their property\nat VERIF_SEED=1; those missed when first planted, and what changed because of it, are listed in the notes above.\n\n| id | caught by | what it breaks |\n|----|----|----|\n" + '\n'.join(rows) + '\n'
open(p, 'w').write(head + notes + fx + pl)
print(len(by), 'fixes', len(rows), 'planted')
