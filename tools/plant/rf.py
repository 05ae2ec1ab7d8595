#!/usr/bin/env python3
"""Whole-repository behaviour-preserving rewrites (tools/rf), each run through the extractor and the
verifier: which functions fail a proof (would be a false alarm), which are merely not decided.
rf.py KIND...   (scratch: /tmp/rft build, /tmp/rfs copy of the repository)"""
import shlex, subprocess, sys, os, json, glob, re, shutil
S='/tmp/rfs'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def srcs(): return sorted(glob.glob('/repo/optlib/src/**/*.rs',recursive=True)+glob.glob('/repo/optlib-testfunc/src/**/*.rs',recursive=True))
def run(kind):
    kinds=kind.split('+')
    sh(f'mkdir -p {S}; rsync -a --delete --exclude target --exclude .git /repo/ {S}/')
    changed=[]
    for f in srcs():
        g=f.replace('/repo',S)
        t=open(g).read()
        if sh(f'rustfmt --edition 2021 --emit stdout {g}').returncode: pass
        ok=True
        for k in kinds:
            r=sh(f'/tmp/rft/debug/rf {k} {g}')
            if r.returncode: ok=False;print('  rf fails',f,r.stderr[-200:]);break
            open(g,'w').write(r.stdout)
        if not ok: open(g,'w').write(t);continue
        changed.append(g)
    bad=[]
    for _ in range(12):
        r=sh(f'cd {S} && CARGO_TARGET_DIR=/tmp/rft/repo cargo check --offline --message-format short 2>&1')
        errs=set(re.findall(r'^(\S+\.rs):\d+:\d+: error',r.stdout,re.M))
        if not errs: break
        for e in errs:
            p=os.path.join(S,e)
            if e not in bad:
                bad.append(e)
                for l in r.stdout.splitlines():
                    if l.startswith(e) and 'error' in l: print('  ',l[:200])
            shutil.copy(p.replace(S,'/repo'),p)
    evaluate(kind,bad)
def evaluate(kind,bad=()):
    r=sh(f'/verif/build/vx/release/vx {S} /verif/contracts /tmp/rfo.rs /tmp/rfo.json --snapshot /verif/contracts/snapshot.tsv')
    if r.returncode: print(kind,'EXTRACTOR FAILS',r.stdout[-300:],r.stderr[-500:]);return
    demote={}
    for rnd in range(25):
        args=''
        if demote:
            args=''.join(' --demote '+shlex.quote(k+'=>'+v) for k,v in demote.items())
        r=sh(f'/verif/build/vx/release/vx {S} /verif/contracts /tmp/rfo.rs /tmp/rfo.json --snapshot /verif/contracts/snapshot.tsv'+args)
        d=json.load(open('/tmp/rfo.json'));fns=d['functions']
        at=lambda l:next((f['key'] for f in fns if f['start']<=l<f['end']),'?')
        r=sh('verus /tmp/rfo.rs --triggers-mode silent --num-threads 8 --multiple-errors 4 -- --error-format=json')
        hard={};fail={}
        for l in r.stderr.splitlines():
            if not l.startswith('{'): continue
            m=json.loads(l)
            if m.get('level')!='error' or 'aborting' in m['message']: continue
            sp=m.get('spans',[]); prim=[s for s in sp if s['is_primary']] or sp
            ks=[at(s['line_start']) for s in prim if s['file_name'].endswith('rfo.rs')] or ['?']
            sem=re.search(r'not satisfied|assertion failed|possible|precondition|postcondition|invariant|resource limit|rlimit|decreases|overflow|unwind|failed',m['message'])
            line=[s['text'][0]['text'].strip()[:140] for s in sp if s.get('text')]
            (fail if sem else hard).setdefault(ks[0],[]).append(m['message'][:110]+' :: '+(' || '.join(line)))
        if not hard: break
        new={k:v[0][:150] for k,v in hard.items() if k not in demote and k not in('?','shim')}
        if not new: print('  HARD',hard);break
        demote.update(new)
    und=[(f['key'],f['notes'][:2]) for f in fns if f['status']=='undecided']
    res=re.search(r'verification results:: (.*)',r.stdout)
    print(f'== {kind}: {res.group(1) if res else "?"}; reshaped {sum(f["reshaped"] for f in fns)}; undecided {len(und)}; files not compiling {bad}')
    resh={f['key'] for f in fns if f['reshaped']}
    for k,v in fail.items(): print('  FAIL' if k not in resh else '  (fail, reshaped)',k,'|',v[0])
    if '-u' in sys.argv:
        for u in und: print('  und',u)
if __name__=='__main__':
  for k in [a for a in sys.argv[1:] if a[0]!='-']: run(k); sys.stdout.flush()
