#!/usr/bin/env python3
# Writes DESIGN.md from head.md, tail.md and the planted bugs.
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(os.path.dirname(here))
out = open(here + '/head.md').read() + open(here + '/tail.md').read()
notes = json.load(open(here + '/notes.json'))
out += '| planted bug | caught by | what it breaks | needs | strengthened |\n|---|---|---|---|---|\n'
for s in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{s}/meta.json')); n = notes.get(s, {})
    out += f"| {s} | {n.get('by', m['property'])} | {m['what_it_breaks']} | {m['needs']} | {n.get('led', '')} |\n"
out += open(here + '/end.md').read()
open(root + '/DESIGN.md', 'w').write(out)
