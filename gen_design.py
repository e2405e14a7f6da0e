#!/usr/bin/env python3
"""writes DESIGN.md from doc/*.md, the rules of the checks, checks.json, known_findings.json and seeded/"""
import json, os, re, glob
R = os.path.dirname(os.path.abspath(__file__)); J = lambda f: json.load(open(os.path.join(R, f)))
ch = J('checks.json'); kf = J('known_findings.json')
P = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
def rules(i):
    f = os.path.join(R, 'sa/rules', i.lower() + '.py')
    return re.findall(r"rep\.rule\('([^']+)', *(?:'((?:[^'\\]|\\.)*)'|\"([^\"]*)\")", open(f).read()) if os.path.exists(f) else []
o = [open(os.path.join(R, 'doc/preface.md')).read(), '\n## 3. How each property is decided\n']
seeds = [(os.path.basename(d), json.load(open(d + '/meta.json'))) for d in sorted(glob.glob(os.path.join(R, 'seeded/*')))]
extra = J('doc/notes.json') if os.path.exists(os.path.join(R, 'doc/notes.json')) else {}
for d in P:
    i = d['id']
    o.append('### %s %s\n' % (i, d['title']))
    if i in ch['checks']:
        t, n = ch['checks'][i]
        o.append('*Decided by* %s. *Bounds and trust:* %s\n' % (t, n))
        for r in rules(i): o.append('* `%s`: %s' % (r[0], (r[1] or r[2]).replace("\\'", "'")))
        o.append('\nTests cannot settle it: %s' % d['why_tests_cant'])
        if i in extra: o.append('\n' + extra[i])
        b = [s for s, m in seeds if m['property'] == i]
        if b: o.append('\nPlanted bugs it catches: %s.' % ', '.join(b))
    else: o.append('Not applicable: %s' % ch.get('not_applicable', {}).get(i, 'no check built'))
    o.append('')
o.append('## 4. Findings on the original tree\n\nRepaired (each a `fix:` commit in /repo; the check reports the violation again if it returns):\n')
for f in kf['fixed']: o.append('* ' + f[7:])
o.append('\nRecorded, not repaired (`known_findings.json`):\n')
for f in kf['findings']: o.append('* %s: %s' % (f['property'], f['what']))
t = open(os.path.join(R, 'doc/tail.md')).read(); a, b = t.split('## 6.', 1)
o += ['', a, '| planted bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for s, m in seeds: o.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
o += ['', '## 6.' + b]
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(o))
