#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and a detection log (argument)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hit = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) (C\d\d) exit=(\d) (\d+)s .*?(?:counterexample in (\S+) (\S+) assertion (\d+))?', l)
        m2 = re.search(r'counterexample in (\S+) (\S+) assertion (\d+)', l)
        if m:
            hit[m.group(1)] = (m.group(3), m.group(4), m2.groups() if m2 else None)
print('| bug | property | breaks | needs | caught by |\n|---|---|---|---|---|')
for i in sorted(os.listdir(V + '/seeded')):
    j = json.load(open(V + '/seeded/%s/meta.json' % i))
    h = hit.get(i)
    c = 'not run' if not h else ('missed' if h[0] != '1' else 'quick check, %s%s' % (h[2][0] if h[2] else '', ', %s s' % h[1]))
    print('| %s | %s | %s | %s | %s |' % (i, j['property'], j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/'), c))
