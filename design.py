#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md, the properties, the last evidence, the known findings and the results
of running the checks on the planted bugs (seeded.json)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
import props  # noqa: E402

props.P.sort(key=lambda p: p['id'])
out = []
for p in props.P:
    out.append('### %s  %s\n' % (p['id'], p['title']))
    if p['id'] in props.NOT_YET:
        out.append(props.NOT_YET[p['id']] + '\n')
        continue
    try:
        e = json.load(open('evidence/%s.json' % p['id']))
    except OSError:
        e = None
    out.append('*Specified:* %s\n' % p['statement'])
    out.append('*Method:* %s.' % p['technique'])
    if e:
        out.append('*Generated, oracle, non-trivial:* %s\n' % e['coverage']['rule'])
        out.append('*Cost of the quick check:* %d cases (%d distinct non-trivial, %d assertions) in %.0f s on 8 cores.' % (
            e['coverage']['planned'], e['coverage']['distinct_nontrivial'], e['coverage']['assertions'],
            e['wall_s'] - e['coverage'].get('build_s', 0)))
        if e['assumptions']:
            out.append('*Bounds and assumptions:* ' + '; '.join(e['assumptions']) + '.')
    out.append('*Limits:* ' + p['note'])
    out.append('*Why tests cannot:* %s.\n' % p['why'])
find = ['| property | commit | what failed |', '|---|---|---|']
for line in open('known_findings.txt'):
    w = line.split(None, 3)
    if line.startswith('fixed:'):
        find.append('| %s | %s | %s |' % (w[1][9:], w[2], w[3].strip()))
    elif line.startswith('finding:'):
        find.append('| %s | not repaired (`%s`) | %s |' % (w[1][9:], w[2], w[3].strip()))
seed = ['| bug | property | what it breaks | needs | caught by (quick) | not by |', '|---|---|---|---|---|---|']
res = json.load(open('seeded.json')) if os.path.exists('seeded.json') else {}
for d in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % d))
    r = res.get(d, {})
    seed.append('| %s | %s | %s | %s | %s | %s |' % (
        d, m['property'], m['what_it_breaks'], m['needs'], ', '.join(sorted(k for k in r if r[k] == 1)) or '–',
        ', '.join(sorted(k for k in r if r[k] != 1)) or '–'))
s = open('DESIGN.in.md').read()
s = s.replace('@@PROPS@@', '## The properties\n\n' + '\n'.join(out)).replace('@@FINDINGS@@', '\n'.join(find)).replace('@@SEEDED@@', '\n'.join(seed))
open('DESIGN.md', 'w').write(s)
