#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, re
MISSED = dict(S08=1, S09=1, S14=1, S16=1, S17=1, S26=1, S27=1, S31=1, S35=1, S37=1, S38=1, S39=1, S40=1, S41=1, S42=1)
try:
    MISSED.update({x: 1 for x in open('/verif/tools/missed.txt').read().split()})
except OSError:
    pass
rows = ["| bug | caught by | breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(f)); i = f.split('/')[-2]
    rows.append(f"| {i}{'*' if i in MISSED else ''} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |")
p = '/verif/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- bugs -->.*<!-- /bugs -->', lambda _: '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- /bugs -->', s, flags=re.S)
open(p, 'w').write(s)
