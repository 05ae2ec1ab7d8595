#!/usr/bin/env python3
"""developer loop: extract, verify, print failures per function"""
import subprocess,json,sys,re,time,os
repo=os.environ.get('REPO','/repo')
a=sys.argv[1:]
full='-f' in a
if full:a.remove('-f')
snap=['--snapshot','/verif/contracts/snapshot.tsv'] if '-s' in a else []
if snap:a.remove('-s')
r=subprocess.run(['/verif/build/vx/release/vx',repo,'/verif/contracts','/tmp/o.rs','/tmp/o.json']+snap,capture_output=True,text=True)
if r.returncode: print(r.stdout,r.stderr);sys.exit(3)
d=json.load(open('/tmp/o.json'))
fns=d['functions']
def fn_at(l):
    for f in fns:
        if f['start']<=l<f['end']: return f['key']
    return '?'
t=time.time()
r=subprocess.run(['verus','/tmp/o.rs','--triggers-mode','silent','--num-threads','8','--multiple-errors','8']+a+['--','--error-format=json'],capture_output=True,text=True)
for l in r.stderr.splitlines():
    if not l.startswith('{'): 
        if l.strip(): print('E',l[:300])
        continue
    m=json.loads(l)
    if m.get('level')=='warning' : continue
    if m.get('level')=='note' and not full: continue
    sp=m.get('spans',[])
    prim=[s for s in sp if s['is_primary']] or sp
    keys=[]
    for s in sp:
        k=fn_at(s['line_start'])
        if k not in keys: keys.append(k)
    print('##',m['message'][:200],'|',' / '.join(keys))
    for s in sp:
        txt=s['text'][0]['text'].strip()[:160] if s.get('text') else ''
        print('     ',s['line_start'],('*' if s['is_primary'] else ' '),s.get('label') or '','::',txt)
print(r.stdout[-1500:] if not r.stdout.startswith('{') else '')
print('%.1fs'%(time.time()-t), 'unused:',d['unused_contracts'], 'undecided:',[ (f['key'],f['notes']) for f in fns if f['status']=='undecided'])
