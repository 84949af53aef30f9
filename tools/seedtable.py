# regenerates the table of planted bugs at the end of DESIGN.md
import os, json
hist = {
 'm02-tag-list': 'missed first: tags equalled ids in the generator; now tags are drawn independently',
 'a06-boundary-orientation': 'missed first: only the set of boundary unknowns was compared; now their order along the cell',
}
D = '/verif/DESIGN.md'
t = open(D).read()
i = t.index('| bug | caught by')
rows = []
for s in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{s}/meta.json'))
    rows.append(f"| {s} | {m['property']} quick | {m['needs']}{' — ' + hist[s] if s in hist else ''} |")
open(D, 'w').write(t[:i] + '| bug | caught by | what it needs to manifest |\n|---|---|---|\n' + '\n'.join(rows) + '\n')
