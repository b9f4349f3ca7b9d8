"""plant.py SPECFILE [ID..]: SPEC = dict(id=..., prop, edits=[(file, old, new[, count])], demo=str, needs, breaks)"""
import os, re, shutil, subprocess, sys, json
sys.path.insert(0, '/tmp/plant')
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
for s in ns['SPECS']:
    if want and s['id'] not in want: continue
    assert not sh('git -C /repo status --porcelain -uno').stdout.strip(), 'repo dirty'
    ok = True
    for e in s['edits']:
        f = '/repo/sidermit/' + e[0]
        t = open(f).read()
        n = t.count(e[1])
        if n < 1 or (n > 1 and len(e) < 4):
            print(s['id'], 'EDIT MATCHES', n, repr(e[1][:80])); ok = False; break
        if len(e) > 3:
            parts = t.split(e[1]); k = e[3]
            t = e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:])
        else:
            t = t.replace(e[1], e[2])
        open(f, 'w').write(t)
    if not ok:
        sh('git -C /repo checkout -- .'); continue
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    diff = sh('git -C /repo diff').stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=${TMPDIR:-/tmp}\nexec /opt/venv/bin/python "$here/demo.py"\n')
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    sh('bash /opt/vp/build.sh')
    sh('bash /opt/vp/test.sh /tmp/plant/o.json')
    p = set(json.load(open('/tmp/plant/o.json')).get('passed', []))
    miss = sorted(set(base) - p)
    r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
    sh('git -C /repo checkout -- .')
    sh('find /repo -name __pycache__ -path "*sidermit*" -exec rm -rf {} +')
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    good = not miss and r0.returncode == 0 and r1.returncode != 0
    print(s['id'], s['prop'], 'OK' if good else 'BAD', 'tests missing', miss[:3], 'demo clean', r0.returncode, 'patched', r1.returncode, (r1.stdout + r1.stderr).strip().splitlines()[-1:] )
    if r0.returncode: print(r0.stdout[-500:], r0.stderr[-1500:])
    if not good: shutil.rmtree(d)
sh('git -C /repo checkout -- .')
print(sh('git -C /repo status --short').stdout)
