#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below plus the entries found in the harness and the planted bugs."""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
entries = {}
for f in sorted(glob.glob(V + '/harness/*/*.go')):
    t = open(f).read()
    for m in re.finditer(r'((?://[^\n]*\n)*)func ((C\d\d)_\w+)\(', t):
        c = ' '.join(x[2:].strip() for x in m.group(1).strip().split('\n'))
        c = re.sub(r'^' + m.group(2) + r': ', '', c)
        entries.setdefault(m.group(3), []).append((m.group(2), c, os.path.relpath(f, V)))
bugs = {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(d))
    bugs.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(d)), j['needs'], j['what_it_breaks']))

out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## Properties, one by one', '']
notes, cur = {}, None
for l in open(V + '/tools/design_props.md'):
    m = re.match(r'^## (C\d\d)\s*$', l)
    if m:
        cur = m.group(1)
        notes[cur] = ''
    elif cur:
        notes[cur] += l
for p in props:
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '', notes[i].strip(), '', 'Entries (`%s`):' % '`, `'.join(sorted({e[2] for e in entries[i]})), '']
    out += ['- `%s`: %s' % (e[0], e[1]) for e in entries[i]]
    if i in bugs:
        out += ['', 'Planted bugs its check reports: ' + '; '.join('`%s` (%s)' % (b[0], b[1].rstrip('.')) for b in bugs[i]) + '.']
    out += ['']
out += [open(V + '/tools/design_tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
missing = [p['id'] for p in props if p['id'] not in notes or p['id'] not in entries]
assert not missing, missing
