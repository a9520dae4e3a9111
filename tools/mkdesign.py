#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, a section per property (from properties.jsonl, props.py, mkmanifest.py,
tools/design_notes.json), the planted bugs with what caught them, and tools/design_tail.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, FLAVOURS
notes = json.load(open(V + '/tools/design_notes.json'))
man = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
out = [open(V + '/tools/design_head.md').read().rstrip(), '']
out.append('## The properties, one by one\n')
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    c = PROPS[i]
    out.append('### %s %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    out.append('* **Why tests cannot settle it:** ' + p['why_tests_cant'])
    out.append('* **Decided by:** ' + man[i]['technique'] + '.')
    out.append('* **Workload:** ' + c['rule'])
    if notes.get(i, {}).get('oracle'):
        out.append('* **Oracle:** ' + notes[i]['oracle'])
    st = []
    for s in c['stages']:
        if 'custom' in s:
            st.append('11 builds, %d generated workloads (thorough: %d)' % (s['quick'], s['thorough']))
            continue
        src = ' (large sizes)' if isinstance(s.get('source'), tuple) and s['source'][0] == 'scale.cpp' else ''
        st.append('%s%s%s%s: %s / %s' % (s['flavour'], ' ' + s['mode'] if s.get('mode') else '', ' libFuzzer' if s.get('kind') == 'fuzz' else '', src + (' under valgrind' if s.get('wrap') else ''), s.get('quick', '-') if 'tiers' not in s else '-', s['thorough']))
    out.append('* **Stages (quick / thorough cases):** ' + '; '.join(st) + '.')
    if c.get('must'):
        out.append('* **A run counts only if it observed:** ' + ', '.join(c['must']) + ' (each counter nonzero).')
    out.append('* **Bounds:** ' + man[i]['level_note'])
    if c.get('assumptions'):
        out.append('* **Assumes:** ' + '; '.join(c['assumptions']) + '.')
    if notes.get(i, {}).get('note'):
        out.append('* **Note:** ' + notes[i]['note'])
    out.append('')
out.append(open(V + '/tools/design_mid.md').read().rstrip() + '\n')
out.append('## Planted bugs\n')
out.append('Written from a property\'s statement and the code, kept whether or not they were caught at first; `tools/seed.py` confirms each (builds, all stable tests pass, demonstration passes without and fails with it), `tools/catch.py` runs the check of its property in its quick tier against it. "at first" says when the check missed it as it then was, and what was added.\n')
out.append('| planted bug | needs | check | caught | at first |')
out.append('|---|---|---|---|---|')
cat = json.load(open(V + '/tools/catches.json'))
hist = notes['missed']
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % s))
    c = cat.get(s, {})
    by = [p for p in sorted(c) if c[p]]
    out.append('| %s | %s | %s | %s | %s |' % (s, m['needs'].replace('|', '/').replace('\n', ' '), m['property'], 'by ' + ', '.join(by) if by else ('no' if c else '?'), hist.get(s, 'caught')))
out.append('')
out.append(open(V + '/tools/design_tail.md').read().rstrip())
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
