#!/usr/bin/env python3
"""DESIGN.md from its parts."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
L = lambda f: json.load(open(f))
checks, methods, seeds = L('checks.json'), L('tools/methods.json'), L('tools/seeds.json')
props = [json.loads(l) for l in open('properties.jsonl')]
out = []
for p in props:
    i = p['id']; c = checks[i]
    hs = []
    for h in c['harnesses']:
        n = h['fn'] + (' (thorough only)' if h.get('only') == 'thorough' else '')
        if n not in hs: hs.append(n)
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n\n*Method.* {methods[i]} Harnesses ({c['pkg']}): {', '.join(hs)}.\n\n*Bounds.* {c['bounds']}.\n\n*Outside.* {c.get('outside') or 'nothing beyond the bounds'}.")
    if c.get('assumptions'): out[-1] += f"\n\n*Assumes.* {'; '.join(c['assumptions'])}."
f = {}
for r in L('known_findings.json'):
    k = (r['commit'], r['what']); f.setdefault(k, []).append(r['property'])
fs = "| commit | properties | what failed |\n|---|---|---|\n" + '\n'.join(f"| {k[0]} | {', '.join(v)} | {k[1]} |" for k, v in f.items())
ss = "| planted bug | needs | caught by |\n|---|---|---|\n"
missed = []
for d in sorted(os.listdir('seeded')) if os.path.isdir('seeded') else []:
    m = L(f'seeded/{d}/meta.json'); s = seeds.get(d, {})
    ss += f"| {d} | {m['needs']} | {s.get('caught', '?')} |\n"
    if s.get('missed'): missed.append(f"{d} ({s['missed']})")
t = open('tools/design.in.md').read()
for a, b in (('PROPERTIES', '\n\n'.join(out)), ('FINDINGS', fs), ('SEEDS', ss.rstrip()), ('MISSED', '; '.join(missed) + '.')):
    t = t.replace(f'@@{a}@@', b)
open('DESIGN.md', 'w').write(t)
