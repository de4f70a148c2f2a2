#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (between the two marker lines)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {  # planted bugs that the checks of the time missed, and what was added
    'c01-globals-after-unlock': 'global component whose presence every structure commit toggles (conc)',
    'c08-stop-twice': 'observers stopped twice (seq, observe)',
    'c10-derived-read-counts-as-write': 'transactions that only read through what they may write (block)',
    'c12-init-before-locks': 'cold starts: first transactions of an instance at the same time (conc)',
    'c21-fixed-id-width': 'handles taken through an integer and back (seq)',
    'c22-shared-event-queue': 'several instances used by several threads at once (multi)',
}
EXTRA = os.path.join(V, 'tools', 'seeds_missed.json')
if os.path.exists(EXTRA):
    MISSED.update(json.load(open(EXTRA)))
rows = ['| planted bug | caught by | needs | first missed: what was added |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], MISSED.get(d, '')))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
