#!/usr/bin/env python3
"""Writes DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + '/tools/design_notes.py').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = open(V + '/tools/design_head.md').read()
out += '\n## Properties\n\nFor each: method and oracle, harnesses with their bounds (numbers in brackets: thorough tier), and the size of the last recorded quick run.\n'
cost = json.load(open(V + '/tools/costs.json')) if os.path.exists(V + '/tools/costs.json') else {}
for f in glob.glob(V + '/evidence/*.json'):
    d = json.load(open(f))
    c = d['coverage']
    cost[d['property']] = cost.get(d['property'], {})
    cost[d['property']][d.get('tier', 'quick')] = [c.get('states_explored') or c.get('states'), c.get('assertions_decided'), round(d['wall_s'])]
json.dump(cost, open(V + '/tools/costs.json', 'w'), sort_keys=True, indent=0)
for p in props:
    i = p['id']
    how, outside = NOTES[i]
    out += f"\n### {i}  {p['title']}\n\n{how}"
    if outside: out += f" Outside: {outside}."
    out += '\n\n'
    for f in sorted(glob.glob(f'{V}/harness/{i.lower()}/*.go')):
        s = open(f).read()
        for m in re.finditer(r'((?:^//[^\n]*\n)+)func (Check\w+)\(\)', s, re.M):
            doc = ' '.join(l[2:].strip() for l in m.group(1).splitlines() if not l.startswith('//v:') and l[2:].strip())
            out += f"* `{m.group(2)}` {doc}\n"
    if i in cost:
        for t, (st, a, w) in sorted(cost[i].items()):
            out += f"\n{t}: {st} paths, {a} assertions decided, {w} s.\n"
out += '\n## Findings\n\nGenuine defects found by the checks; `fixed` ones are repaired in /repo (the checks report them again if they return), `known` ones are listed in KNOWN_FINDINGS.txt.\n\n'
for l in open(V + '/KNOWN_FINDINGS.txt'):
    if l.startswith(('fixed:', 'known:')):
        l = l.strip().replace('property=', '')
        out += '* ' + re.sub(r'harness=(\S+) msg=("(?:[^"\\]|\\.)*")', r'(`\1`)', l) + '\n'
out += open(V + '/tools/design_tail.md').read()
out += '\n| bug | property | needs | caught by (quick) |\n|---|---|---|---|\n'
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    out += f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, '')} |\n"
open(V + '/DESIGN.md', 'w').write(out)
