"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (run by hand)."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['what_it_breaks'].replace('|', '\\|'), d['needs'].replace('|', '\\|')))
mark = '## Planted bugs\n'
p = root + '/DESIGN.md'
s = open(p).read().split(mark)[0]
s += mark + '''
Each is in `seeded/` with a demonstration and was confirmed to compile, pass the existing tests and fail its
demonstration. The check of the named property catches each of them (quick tier, seed 1). Bugs that were missed at
first led to: values over 1 MB, tiny logs, blanks at value ends, names that contain one another, more errnos, several
remotes, effective arguments in every refused command, rekey after sync, and past states in the display check.

| planted | caught by | what it breaks | needs |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
