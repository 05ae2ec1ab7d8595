#!/usr/bin/env python3
"""vacuity probe: adds assert(false) at the end of every function under contract; reports those where it is proved"""
import subprocess,json,os,sys
w=sys.argv[1] if len(sys.argv)>1 else 'exit'
e=dict(os.environ,VX_PROBE=w)
r=subprocess.run(['/verif/build/vx/release/vx','/repo','/verif/contracts','/tmp/p.rs','/tmp/p.json'],env=e,capture_output=True,text=True)
assert r.returncode==0,r.stderr
d=json.load(open('/tmp/p.json'))
L=open('/tmp/p.rs').read().split('\n')
r=subprocess.run(['verus','/tmp/p.rs','--triggers-mode','silent','--num-threads','8','--multiple-errors','50','--','--error-format=json'],capture_output=True,text=True)
failed=set(); rl=set()
for l in r.stderr.splitlines():
    if not l.startswith('{'): continue
    m=json.loads(l)
    if m['level']!='error': continue
    for s in m['spans']: failed.add(s['line_start'])
    if 'rlimit' in m['message']: rl|={s['line_start'] for s in m['spans']}
    if 'rlimit' in m['message'] or not m['spans']: print(m['message'][:150], [s['line_start'] for s in m['spans']])
for f in d['functions']:
    if f['status']!='verified': continue
    probes=[i for i in range(f['start'],f['end']) if i<=len(L) and L[i-1].strip()=='assert(false);']
    if probes and not any(p in failed for p in probes) and f['start'] not in failed and not any(f['start']<=x<f['end'] for x in rl): print('VACUOUS?',f['key'],probes)
print(r.stdout[-200:])
