#!/usr/bin/env python3
"""plant.py SPEC.py [ID ...]: makes and validates /verif/seeded/<id> from the bugs listed in SPEC.py"""
import os, subprocess, sys, json, shutil, runpy
HERE = os.path.dirname(os.path.realpath(__file__))
SEED = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'seeded')
SCR = '/tmp/plantscr'
spec = runpy.run_path(sys.argv[1])['BUGS']
want = set(sys.argv[2:])
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(SCR):
    assert sh('cp -a /repo %s' % SCR).returncode == 0
for f in ('build.sh', 'test.sh'):
    s = open('/opt/vp/' + f).read().replace('/repo', SCR)
    open('/tmp/plant_' + f, 'w').write(s)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok = True
for b in spec:
    if want and b['id'] not in want:
        continue
    sh('git checkout -q -- . && git clean -fdq', cwd=SCR)
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=SCR)
    bad = []
    for f, old, new in b['edits']:
        p = os.path.join(SCR, f)
        s = open(p).read()
        if s.count(old) != 1:
            bad.append('%d matches of %r' % (s.count(old), old))
        open(p, 'w').write(s.replace(old, new, 1))
    d = os.path.join(SEED, b['id'])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', cwd=SCR).stdout)
    open(os.path.join(d, 'demo.rs'), 'w').write('mod kit;\nuse kit::*;\n' + b['demo'])
    for f in ('demo.sh', 'kit.rs'):
        shutil.copy(os.path.join(HERE, f), os.path.join(d, f))
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if not bad:
        r = sh('bash /tmp/plant_build.sh')
        if r.returncode:
            bad.append('does not build: ' + r.stdout[-800:])
    if not bad:
        sh('bash /tmp/plant_test.sh /tmp/plant_out.json')
        res = json.load(open('/tmp/plant_out.json'))
        passed = set(res.get('passed', res.get('pass', [])))
        if stable - passed:
            bad.append('stable tests fail: %s' % sorted(stable - passed)[:4])
    if not bad:
        r = sh('bash %s/demo.sh' % d, cwd=SCR)
        if r.returncode == 0:
            bad.append('demo passes with the patch')
        with_out = r.stdout[-300:]
    if not bad:
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        if r.returncode:
            bad.append('demo fails on the unchanged tree: ' + r.stdout[-600:])
    print(b['id'], 'OK ' + with_out.strip().replace('\n', ' | ')[-160:] if not bad else 'BAD ' + '; '.join(bad), flush=True)
    if bad:
        ok = False
        os.makedirs('/tmp/badplants', exist_ok=True)
        shutil.rmtree('/tmp/badplants/' + b['id'], ignore_errors=True)
        shutil.move(d, '/tmp/badplants/' + b['id'])
sh('git checkout -q -- .', cwd=SCR)
sys.exit(0 if ok else 1)
