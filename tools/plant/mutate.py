#!/usr/bin/env python3
"""mutation run: apply small source mutations to a scratch copy of /repo, run the harness (all properties, few
cases) and, for what it misses, the verifier over the whole extracted crate.  Prints what neither of them sees.
  mutate.py [-j N] [--only REGEX] OUT.jsonl"""
import sys, os, re, json, subprocess, shutil, threading, queue, argparse, glob
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=4)
ap.add_argument('--only', default='')
ap.add_argument('--skip', type=int, default=0)
ap.add_argument('--records', help='earlier OUT.jsonl: only the mutants it lists with one of --results')
ap.add_argument('--results', default='verus,SURVIVED,undecided')
ap.add_argument('out')
a = ap.parse_args()
REPO = '/repo'
files = [f for f in glob.glob(REPO + '/optlib/src/**/*.rs', recursive=True) + glob.glob(REPO + '/optlib-testfunc/src/**/*.rs', recursive=True) if '/tests' not in f and 'test_' not in os.path.basename(f)]
SW = [(' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' < ', ' > '), (' == ', ' != '), (' != ', ' == '),
      (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' * '), (' += ', ' -= '), (' && ', ' || '), (' || ', ' && '),
      ('if !', 'if '), ('true', 'false'), ('false', 'true'), ('.min(', '.max('), ('.max(', '.min('), ('Less', 'Greater'), ('Greater', 'Less'),
      ('.iter()', '.iter().rev()'), ('.iter()', '.iter().skip(1)'), ('.iter_mut()', '.iter_mut().rev()'), ('.iter_mut()', '.iter_mut().skip(1)'),
      ('0..', '1..'), ('is_nan', 'is_finite'), ('is_finite', 'is_nan'), ('is_some', 'is_none'), ('is_none', 'is_some'),
      ('best', 'worst'), ('worst', 'best'), ('min', 'max'), ('max', 'min'), ('personal', 'global'), ('global', 'personal'),
      ('.0', '.1'), ('.1', '.0'), ('start', 'resume'), ('resume', 'start'), ('any', 'all'), ('all', 'any'), ('<<', '>>'), ('>>', '<<'), (' & ', ' | '), (' | ', ' & '), (' ^ ', ' | '),
      ('coordinates', 'velocity'), ('velocity', 'coordinates'), ('new_inclusive', 'new'), ('Uniform::new(', 'Uniform::new_inclusive('), ('.first()', '.last()'), ('.last()', '.first()'),
      ('-= ', '+= '), ('len()', 'len() + 1'), ('len()', 'len().saturating_sub(1)'), ('new_value', 'self.value'), ('previous', 'current'), ('individual1', 'individual2'), ('[0]', '[1]'), ('[1]', '[0]')]
muts = []
for f in sorted(files):
    ls = open(f).read().split('\n')
    depth_test = False
    for i, l in enumerate(ls):
        if re.match(r'\s*#\[cfg\(test\)\]', l):
            break
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use') or s.startswith('mod ') or s.startswith('pub mod') or s.startswith('/*') or s.startswith('*') or s.startswith('impl') or re.match(r'(pub )?(fn|trait|struct|type)\b', s):
            continue
        code = l.split('//')[0]
        seen = set()
        for x, y in SW:
            for m in re.finditer(re.escape(x), code):
                if x[0].isalpha() and m.start() > 0 and False:
                    continue
                n = code[:m.start()] + y + code[m.end():]
                if n not in seen:
                    seen.add(n)
                    muts.append((f, i, n, '%s -> %s' % (x.strip(), y.strip())))
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w])', code):
            v = int(m.group(1))
            for w in {v + 1, max(v - 1, 0), 0} - {v}:
                muts.append((f, i, code[:m.start()] + str(w) + code[m.end():], 'literal'))
        if s.endswith(';') and not re.match(r'(let|return|use|type|pub|const)\b', s) and s.count('(') == s.count(')') and s.count('{') == s.count('}') and not s.startswith('}') and not s.startswith(')'):
            muts.append((f, i, '', 'deleted'))
        m = re.match(r'(\s*)(?:\} else )?if (.*) \{$', code)
        if m:
            for c in ('true', 'false'):
                muts.append((f, i, code.replace('if ' + m.group(2) + ' {', 'if ' + c + ' {'), 'cond ' + c))
muts = [m for m in muts if re.search(a.only, m[0])][a.skip:]
if a.records:
    want = set()
    for l in open(a.records):
        r = json.loads(l)
        if r['r'] in a.results.split(','):
            want.add((r['file'], r['line'], r['new']))
    muts = [m for m in muts if any((m[0], m[1] + d, m[2].strip()) in want for d in (0, 1))]
print(len(muts), 'mutants', flush=True)
Q = queue.Queue()
for m in muts:
    Q.put(m)
lock = threading.Lock()
out = open(a.out, 'a')
IDS = ['C%02d' % k for k in range(1, 31)]
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', RUSTC_WRAPPER='', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', HARNESS_MULT='2', VERIF_SEED='1')
for p in IDS: pass

def sh(cmd, t, **k):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=t, **k)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return -9, '', 'timeout'

def worker(k):
    base = '/tmp/mut/w%d' % k
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run('mkdir %s/repo && cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C %s/repo; cp -a /verif/harness %s/harness; sed -i "s#/repo/#%s/repo/#; s#opt-level = 1#opt-level = 0#" %s/harness/Cargo.toml; cp -a /verif/build/harness %s/target' % ((base,) * 6), shell=True, check=True)
    env = dict(ENV, CARGO_TARGET_DIR=base + '/target', HARNESS_LAST=base + '/last', HARNESS_DIR=base)
    while True:
        try:
            f, i, n, w = Q.get_nowait()
        except queue.Empty:
            break
        g = f.replace('/repo', base + '/repo', 1)
        orig = open(g).read()
        ls = orig.split('\n')
        old = ls[i]
        ls[i] = n
        open(g, 'w').write('\n'.join(ls))
        rec = dict(file=f, line=i + 1, old=old.strip(), new=n.strip(), op=w)
        try:
            rc, o, e = sh(['cargo', 'build', '--offline', '--quiet', '--manifest-path', base + '/harness/Cargo.toml'], 200, env=env)
            if rc:
                rec['r'] = 'no build'
            else:
                ps = []
                for p in IDS:
                    rc, o, e = sh([base + '/target/debug/harness', p], 20, env=env, cwd=base, preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (4 << 30, 4 << 30)))
                    if rc:
                        ps.append(p)
                        break
                rec['harness'] = ps
                if not ps:
                    rc, o, e = sh(['/verif/build/vx/release/vx', base + '/repo', '/verif/contracts', base + '/o.rs', base + '/o.json', '--snapshot', '/verif/contracts/snapshot.tsv'], 60)
                    if rc:
                        rec['r'] = 'vx: ' + e[-200:]
                    else:
                        d = json.load(open(base + '/o.json'))
                        und = [x['key'] for x in d['functions'] if x['status'] in ('undecided',)]
                        rc, o, e = sh(['verus', base + '/o.rs', '--triggers-mode', 'silent', '--num-threads', '2', '--rlimit', '30'], 400, cwd=base)
                        m = re.search(r'(\d+) verified, (\d+) errors', o + e)
                        rec['verus'] = m.group(0) if m else (e[-300:])
                        rec['undecided'] = und
                        rec['r'] = 'SURVIVED' if m and m.group(2) == '0' and not und else 'undecided' if not m or (und and m.group(2) == '0') else 'verus'
                else:
                    rec['r'] = 'harness'
        finally:
            open(g, 'w').write(orig)
        with lock:
            out.write(json.dumps(rec) + '\n')
            out.flush()
    shutil.rmtree(base, ignore_errors=True)

ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.j)]
for t in ts: t.start()
for t in ts: t.join()
print('done')
