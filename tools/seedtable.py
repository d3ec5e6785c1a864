#!/usr/bin/env python3
"""the table of planted bugs for DESIGN.md"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| bug | property | what it needs |\n|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    print('| `%s` | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs']))
