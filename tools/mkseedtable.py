#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
for d in sorted(os.listdir(V), key=lambda d: (json.load(open(os.path.join(V, d, 'meta.json')))['property'], d)):
    m = json.load(open(os.path.join(V, d, 'meta.json')))
    print('| %s | %s | %s |' % (m['property'], d, m['needs'].replace('\n', ' ').replace('|', '/')))
