#!/usr/bin/env python3
"""Write SEEDED.md from seeded/*/meta.json and the results of tools/catch.py: seeded_table.py RESULTS.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        d = json.loads(l); res[d['id']] = d
out = ['# Planted bugs', '', 'One row per folder of `seeded/`, sorted by property. The check is that of the property (quick tier, `VERIF_SEED=1`), run by `tools/catch.py` against a copy of the repository with the bug applied; the last column names the stream that reported it. Written by `tools/seeded_table.py`.', '', '| Property | Bug | What it breaks | What it needs | Result |', '|---|---|---|---|---|']
rows = []
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    r = res.get(i, {})
    rows.append((m['property'], i, m['what_it_breaks'], m['needs'], (r.get('result', '?') + (': ' + r['how'].split("'")[1] if r.get('how', '').count("'") > 1 else ''))))
c = lambda s: str(s).replace('|', '\\|').replace('\n', ' ')
for r in sorted(rows): out.append('| ' + ' | '.join(c(x) for x in r) + ' |')
n = sum(r[4].startswith('caught') for r in rows)
out[2:2] = [f'{len(rows)} bugs, {n} caught by the check of their property.', '']
open(V + '/SEEDED.md', 'w').write('\n'.join(out) + '\n')
print(out[2])
