#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    by[json.load(open(f))['property']].append(os.path.basename(os.path.dirname(f)))
path = root + '/DESIGN.md'
s = open(path).read()
also = dict(re.findall(r'`([a-z0-9-]+)` (\[[C0-9, ]+\])', s[s.index('Which check reports which'):]))
lines = ['* %s: %s' % (p, ', '.join('`%s`%s' % (b, ' ' + also[b] if b in also else '') for b in by[p])) for p in sorted(by)]
head = s[:s.index('\n* C01:', s.index('Which check reports which'))]
head = re.sub(r'planted so far: \d+', 'planted so far: %d' % sum(map(len, by.values())), head)
open(path, 'w').write(head + '\n' + '\n'.join(lines) + '\n')
