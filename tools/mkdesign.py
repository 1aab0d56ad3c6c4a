#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (a development tool, no check runs it)."""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
rows = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[1], m['needs'], m['what_it_breaks'], m.get('caught_by', m['property'])))
t = '| id | needs | breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
d = open('DESIGN.md').read()
d = re.sub(r'(<!-- planted -->\n).*?(<!-- /planted -->)', lambda m: m.group(1) + t + m.group(2), d, flags=re.S)
open('DESIGN.md', 'w').write(d)
