#!/usr/bin/env python3
"""Developer tool: writes the table of planted bugs into DESIGN.md (between the markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    rows.append((m['property'], i, m['needs'].rstrip('.')))
t = '<!-- seeds -->\n| property | change | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % r for r in sorted(rows)) + '<!-- /seeds -->'
s = open(V + '/DESIGN.md').read()
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
