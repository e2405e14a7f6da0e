#!/usr/bin/env python3
"""seed.py SPEC.py...: makes seeded/<id> from a specification and confirms it in a scratch copy.
SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (shell text after sourcing kit.sh), FILES={name:text}, CHECKS"""
import json, os, shutil, subprocess, sys
V = '/verif'; K = V + '/seedkit'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(spec, confirm=True, suite=True):
    S = dict(FILES={}, DRIVER='driver.cpp'); exec(open(spec).read(), S)
    d = '%s/seeded/%s' % (V, S['ID']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = '/tmp/seed_%s' % S['ID']; shutil.rmtree(t, ignore_errors=True)
    sh('git -C /repo worktree prune; git clone -q /repo %s' % t)
    for f, old, new in S['EDITS']:
        s = open(t + '/' + f).read(); assert s.count(old) >= 1, ('no match', f, old); assert s.count(old) == 1, ('ambiguous', f, old)
        open(t + '/' + f, 'w').write(s.replace(old, new))
    p = sh('git -C %s diff' % t).stdout; open(d + '/patch.diff', 'w').write(p)
    # only lines of the original repository may be changed
    base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
    for f, old, new in S['EDITS']:
        b = sh('git -C %s blame -s HEAD -- %s' % (t, f)).stdout.splitlines()
        cur = None
        for l in sh('git -C %s diff -U0 -- %s' % (t, f)).stdout.splitlines():
            if l.startswith('@@'):
                a = l.split()[1][1:].split(','); st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for i in range(st, st + n):
                    h = b[i-1].split()[0].lstrip('^')
                    if not base.startswith(h): print('  WARNING: %s line %s of %s is not original: %s' % (S['ID'], i, f, b[i-1][:100]))
    shutil.copytree(K + '/inc', d + '/inc'); shutil.copy(K + '/kit.sh', d)
    if 'driver.cpp' == S['DRIVER']: shutil.copy(K + '/driver.cpp', d)
    for n, x in S['FILES'].items(): open(d + '/' + n, 'w').write(x)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n. "$(dirname "$0")/kit.sh"\n' + S['DEMO'].strip() + '\n'); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=S['PROPERTY'], needs=S['NEEDS'], what_it_breaks=S['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    ok = True
    if confirm:
        a = sh('bash %s/demo.sh' % d, cwd='/repo'); b = sh('bash %s/demo.sh' % d, cwd=t)
        ok = a.returncode == 0 and b.returncode not in (0, 99)
        print(S['ID'], 'clean', a.returncode, 'patched', b.returncode, 'CONFIRMED' if ok else 'NOT CONFIRMED')
        print('   ', (b.stdout + b.stderr).strip().splitlines()[-3:])
        if not ok: print('    clean:', (a.stdout + a.stderr).strip().splitlines()[-6:])
    for f in sorted(set(e[0] for e in S['EDITS'])): pass
    shutil.rmtree(t, ignore_errors=True)
    # what the checks say
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d); assert r.returncode == 0, r.stderr
        for c in S.get('CHECKS', [S['PROPERTY']]):
            if not os.path.exists('%s/sa/rules/%s.py' % (V, c.lower())): print('   ', c, 'no check yet'); continue
            r = sh('python3 check.py ' + c, cwd=V); print('   ', c, '->', r.returncode, [l[:150] for l in r.stdout.splitlines()][:3])
        if suite:
            r = sh('bash /opt/vp/build.sh >/tmp/sb.log 2>&1 && bash /opt/vp/test.sh /tmp/sb.json', cwd='/repo')
            print('    suite', r.returncode, r.stdout.strip().splitlines()[-1:])
    finally: sh('git -C /repo checkout -- .')
    return ok
if __name__ == '__main__':
    for s in sys.argv[1:]: make(s)
