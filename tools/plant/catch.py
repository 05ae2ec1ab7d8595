#!/usr/bin/env python3
"""run checks against patches, in private mount namespaces (neither /repo nor /verif is touched)

  catch.py [-j N] [-p IDS|all|affected] PATCH_OR_DIR...
A directory with patch.diff and meta.json (a planted bug) runs the check of its property; a plain .diff runs -p.
"""
import sys, os, json, subprocess, shutil, threading, queue, argparse, glob, re
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=2)
ap.add_argument('-p', default='')
ap.add_argument('what', nargs='*')
a = ap.parse_args()
man = json.load(open('/verif/MANIFEST.json'))
ALL = [c['property_id'] if 'property_id' in c else c['property'] for c in man['checks']]
jobs = queue.Queue()
for w in a.what or sorted(glob.glob('/verif/seeded/*')):
    w = os.path.abspath(w)
    if os.path.isdir(w):
        pids = [json.load(open(w + '/meta.json'))['property']]
        patch = w + '/patch.diff'
    else:
        pids, patch = [], w
    pf = os.path.splitext(w)[0] + '.props'
    if os.path.exists(pf):
        pids = [x for x in open(pf).read().strip().split(',') if x in ALL]
    if a.p == 'all':
        pids = ALL
    elif a.p:
        pids = a.p.split(',')
    jobs.put((os.path.basename(w), patch, pids))
lock = threading.Lock()

def worker(k):
    base = '/tmp/ns/w%d' % k
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(['rsync', '-a', '--exclude', 'target', '/repo', base + '/'], check=False) if shutil.which('rsync') else subprocess.run('mkdir -p %s/repo && cd /repo && tar c --exclude=./target . | tar x -C %s/repo' % (base, base), shell=True, check=True)
    subprocess.run('mkdir -p %s/verif && cd /verif && tar c --exclude=./build/run --exclude=./.git . | tar x -C %s/verif' % (base, base), shell=True, check=True)
    while True:
        try:
            name, patch, pids = jobs.get_nowait()
        except queue.Empty:
            break
        subprocess.run(['git', '-C', base + '/repo', 'checkout', '-q', '--', '.'])
        r = subprocess.run(['git', '-C', base + '/repo', 'apply', patch], capture_output=True, text=True)
        if r.returncode:
            with lock: print(name, 'PATCH DOES NOT APPLY', r.stderr[:200], flush=True)
            continue
        for p in pids:
            cmd = 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check %s' % (base, base, p)
            r = subprocess.run(['unshare', '-rm', 'bash', '-c', cmd], capture_output=True, text=True)
            out = r.stdout
            v = 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + p in out else 'quiet' if r.returncode == 0 else 'ERR%d' % r.returncode
            if 'no-failing-input-found' in out: v += '(no input)'
            first = [l for l in out.splitlines() if l.startswith(p + ':')]
            extra = [l.strip()[:220] for l in out.splitlines() if l.startswith('failed obligation') or l.startswith('  not proved') or l.startswith('  note') or l.startswith('failing input')]
            with lock:
                print('%-34s %s %-20s %s' % (name, p, v, first[0] if first else (out + r.stderr)[-300:]), flush=True)
                for e in extra: print('      ', e[:260], flush=True)
    shutil.rmtree(base, ignore_errors=True)

ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.j)]
for t in ts: t.start()
for t in ts: t.join()
print('done')
