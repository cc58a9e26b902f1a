"""Writes DESIGN.md: tools/design.txt, with tables of the fixes and of the planted bugs filled in."""
import json
import os
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def fixes():
    kf = json.load(open(VERIF + '/known_findings.json'))
    by = {}
    for l in kf['fixed']:
        _, prop, h, what = l.split(' ', 3)
        by.setdefault(prop.split('=')[1], []).append((h, what))
    return '\n'.join('- **%s**: %s' % (p, '; '.join('%s (%s)' % (w, h) for h, w in v)) for p, v in sorted(by.items()))


def bugs():
    known = json.load(open(HERE + '/plants/catches.json'))
    out = ['| planted bug | needs | check | what the monitor said |', '|---|---|---|---|']
    for i in sorted(os.listdir(VERIF + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (VERIF, i)))
        k = known.get(i, {})
        out.append('| %s | %s | %s %s | %s |' % (i, m['needs'].replace('|', '/'), m['property'], 'caught' if k.get('caught') else 'not caught' if k else 'not run', k.get('message', '').replace('|', '/')[:110]))
    n = sum(1 for i in os.listdir(VERIF + '/seeded') if known.get(i, {}).get('caught'))
    return '%d of %d planted bugs are caught by the quick check of their property (seed 1).\n\n' % (n, len(os.listdir(VERIF + '/seeded'))) + '\n'.join(out)


def evidence():
    out = ['| check | cases (quick) | observations of the monitor | some of the events seen | s |', '|---|---|---|---|---|']
    for k in range(1, 25):
        f = '%s/evidence/C%02d.json' % (VERIF, k)
        if os.path.exists(f):
            out.append('| C%02d | %s |' % (k, json.dumps(json.load(open(f)))[:100]))
    return '\n'.join(out)


s = open(HERE + '/design.txt').read()
s = s.replace('@FIXES@', fixes()).replace('@BUGS@', bugs())
open(VERIF + '/DESIGN.md', 'w').write(s)
