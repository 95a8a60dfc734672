#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, the per-property sections (P), the list of fixes (known_findings.txt)
and the table of planted bugs (seeded/*/meta.json, tools/catches.json)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {p['id']: p for p in map(json.loads, open(V + '/properties.jsonl'))}
exec(open(V + '/tools/design_text.py').read())
out = [INTRO.strip(), '']
out.append('## Properties\n')
for i, p in props.items():
    if i in P:
        src = open(f'{V}/checks/{i}.cpp').read()
        sc = re.findall(r'mc::scenario\("([^"]+)"', src)
        note = re.search(r'mc::run\(argc, argv, \{"[^"]+", "([^"]+)"', src).group(1)
        out += [f'### {i} {p["title"]}\n', P[i].strip(), '', f'Scenarios (`checks/{i}.cpp`): {", ".join(sc)}. Bounds and assumptions: {note}.', '']
out += [NA.strip(), '']
out += ['## Genuine defects found and repaired\n', 'Each is one `fix:` commit in /repo; the check named reports the violation again if it returns. No finding is left unrepaired, so no check prints a KNOWN-FINDING line.\n']
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: out.append(f'- {m.group(1)} {m.group(2)}: {m.group(3)}')
out += ['', '## Planted bugs\n', 'Written from the property texts and the code; the check of the own property was run against each with `tools/trybugs.sh`. "at once": caught when first tried; otherwise what was missing.\n', '| bug | property | needs | caught |', '|---|---|---|---|']
C = json.load(open(V + '/tools/catches.json'))
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{b}/meta.json'))
    out.append(f'| {b} | {m["property"]} | {m["needs"]} | {C.get(b, "by " + m["property"] + ", at once")} |')
out += ['', TAIL.strip()]
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
