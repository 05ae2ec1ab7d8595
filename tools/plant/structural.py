#!/usr/bin/env python3
"""structural behaviour-preserving edits of the repository (fields renamed, items moved to other modules, derives,
constants), run through extractor and verifier like rf.py.   structural.py [NAME...]"""
import re,sys,os,glob
sys.argv=[sys.argv[0]]+sys.argv[1:]
sys.path.insert(0,os.path.dirname(__file__))
import rf
from rf import S,sh,evaluate
def rd(f): return open(f'{S}/{f}').read()
def wr(f,t): open(f'{S}/{f}','w').write(t)
GA='optlib/src/genetic/mod.rs';PSO='optlib/src/particleswarm/mod.rs';ST='optlib/src/tools/statistics/mod.rs';LG='optlib/src/tools/logging/mod.rs';SC='optlib/src/tools/stopchecker/mod.rs'
E={}
def e(f): E[f.__name__.replace('_','-')]=f; return f
def sub(f,a,b,n=1):
    t=rd(f); assert a in t,(f,a); wr(f,t.replace(a,b) if n==0 else t.replace(a,b,n))
def cut(t,a,b):
    i=t.index(a); j=t.index(b,i)+len(b); return t[:i],t[i:j],t[j:]
@e
def derive_particle():
    h,_,t=cut(rd(PSO),'impl<T: Clone> Clone for Particle<T> {','\n}\n\n')
    wr(PSO,h+t); sub(PSO,'pub struct Particle<T> {','#[derive(Clone)]\npub struct Particle<T> {')
@e
def literal_particle_clone():
    h,_,t=cut(rd(PSO),'        let mut particle = Particle::new(self.coordinates','        particle\n')
    wr(PSO,h+'''        Particle {
            coordinates: self.coordinates.clone(),
            velocity: self.velocity.clone(),
            value: self.value,
            best_personal_coordinates: self.best_personal_coordinates.clone(),
            best_personal_value: self.best_personal_value,
            worst_personal_coordinates: self.worst_personal_coordinates.clone(),
            worst_personal_value: self.worst_personal_value,
        }
'''+t)
@e
def move_compare():
    h,f,t=cut(rd(PSO),'fn compare_floats(','\n}\n')
    wr(PSO,h.replace('use std::cmp::Ordering;','use std::cmp::Ordering;\nmod order;\nuse order::compare_floats;')+t)
    wr('optlib/src/particleswarm/order.rs','use std::cmp::Ordering;\n\npub(super) '+f)
@e
def move_particle():
    t=rd(PSO)
    h,a,t=cut(t,'pub struct Particle<T> {','\n}\n')
    h2,b,t=cut(t,'impl<T: Clone> Clone for Particle<T> {','\n}\n'); h+=h2
    h2,c,t=cut(t,'impl<T: Clone> Particle<T> {','\n}\n'); h+=h2
    a=re.sub(r'\n    (\w+):',r'\n    pub(super) \1:',a); c=re.sub(r'\n    fn',r'\n    pub(super) fn',c)
    wr(PSO,h.replace('use std::cmp::Ordering;','use std::cmp::Ordering;\nmod particle;\npub use self::particle::Particle;',1)+t)
    wr('optlib/src/particleswarm/particle.rs','use super::*;\n\n'+a+'\n'+b+'\n'+c)
@e
def fields():
    import subprocess
    fs=rf.srcs(); done=[]
    for f in fs:
        t=open(f).read()
        for m in re.finditer(r'(?:pub )?struct \w+[^{;(]*\{(.*?)\n\}',t,re.S):
            for x in re.findall(r'^    (\w+):',m.group(1),re.M):
                g=f.replace('/repo',S); s=open(g).read(); keep=s
                s=re.sub(r'\b'+x+r'\b(?!\s*\(|::|!)','the_'+x,s); open(g,'w').write(s)
                r=sh(f'cd {S} && CARGO_TARGET_DIR=/tmp/rft/repo cargo check --offline --message-format short 2>&1')
                if 'error' in r.stdout: open(g,'w').write(keep)
                else: done.append(x)
    print('  renamed',done)
@e
def constants():
    sub(SC,'            old_goal: f64::MAX,\n            change_iter: 0,','            old_goal: NO_GOAL,\n            change_iter: FIRST_ITERATION,')
    sub(SC,'pub struct GoalNotChange {','const NO_GOAL: f64 = f64::MAX;\nconst FIRST_ITERATION: usize = 0;\n\npub struct GoalNotChange {')
    sub(GA,'        self.iteration = 0;','        self.iteration = FIRST;',0)
    sub(GA,'pub struct GeneticOptimizer','const FIRST: usize = 0;\npub struct GeneticOptimizer')
@e
def assoc_const():
    sub(SC,'            old_goal: f64::MAX,','            old_goal: Self::NO_GOAL,')
    sub(SC,'impl GoalNotChange {','impl GoalNotChange {\n    const NO_GOAL: f64 = f64::MAX;\n')
@e
def default_swarm():
    sub(PSO,'''        Swarm {
            particles: vec![],
            best_particle: None,
            worst_particle: None,
            iteration: 0,
        }
    }''','''        Self::default()
    }''')
    sub(PSO,'impl<T: Clone> Swarm<T> {','''impl<T> Default for Swarm<T> {
    fn default() -> Self {
        Self { particles: Vec::new(), best_particle: None, worst_particle: None, iteration: 0 }
    }
}

impl<T: Clone> Swarm<T> {''')
@e
def alias():
    for f in rf.srcs():
        g=f.replace('/repo',S); t=open(g).read()
        t=t.replace('use std::cmp::Ordering;','use std::cmp;'); 
        if 'use std::cmp;' in t: t=re.sub(r'(?<![\w:])Ordering\b','cmp::Ordering',t)
        open(g,'w').write(t)
@e
def type_alias():
    for f in (GA,PSO,ST):
        t=rd(f); t=t.replace('usize','Count'); i=t.index('\npub '); wr(f,t[:i]+'\ntype Count = usize;\n'+t[i:])
@e
def newtype_helper():
    sub(PSO,'''    fn replace_particles(&mut self, particles: Vec<Particle<T>>) {
        self.particles = particles;
        self.best_particle = Self::find_best_particle(&self.particles);
        self.worst_particle = Self::find_worst_particle(&self.particles);
    }''','''    fn replace_particles(&mut self, particles: Vec<Particle<T>>) {
        let extremes = Extremes {
            best: Self::find_best_particle(&particles),
            worst: Self::find_worst_particle(&particles),
        };
        self.particles = particles;
        self.best_particle = extremes.best;
        self.worst_particle = extremes.worst;
    }''')
    sub(PSO,'impl<T: Clone> Swarm<T> {','struct Extremes<T> {\n    best: Option<Particle<T>>,\n    worst: Option<Particle<T>>,\n}\n\nimpl<T: Clone> Swarm<T> {')
@e
def tuple_extremes():
    sub(PSO,'''        self.particles = particles;
        self.best_particle = Self::find_best_particle(&self.particles);
        self.worst_particle = Self::find_worst_particle(&self.particles);
    }''','''        let (best, worst) = Self::extremes(&particles);
        self.particles = particles;
        self.best_particle = best;
        self.worst_particle = worst;
    }

    fn extremes(particles: &Vec<Particle<T>>) -> (Option<Particle<T>>, Option<Particle<T>>) {
        (Self::find_best_particle(particles), Self::find_worst_particle(particles))
    }''')
@e
def enum_helper():
    sub(SC,'''                if delta > self.delta || restarted {
                    self.old_goal = best_goal;
                    self.change_iter = state.get_iteration();
                }
''','''                let change = if delta > self.delta || restarted { Change::Yes } else { Change::No };
                match change {
                    Change::Yes => {
                        self.old_goal = best_goal;
                        self.change_iter = state.get_iteration();
                    }
                    Change::No => {}
                }
''')
    sub(SC,'pub struct GoalNotChange {','enum Change {\n    Yes,\n    No,\n}\n\npub struct GoalNotChange {')
@e
def macro_helper():
    sub(PSO,'''        if compare_floats(value, self.best_personal_value) == Ordering::Less {
            self.best_personal_coordinates = self.coordinates.clone();
            self.best_personal_value = value;
        }

        if compare_floats(value, self.worst_personal_value) == Ordering::Greater {
            self.worst_personal_coordinates = self.coordinates.clone();
            self.worst_personal_value = value;
        }''','''        record!(self, value, Less, best_personal_value, best_personal_coordinates);
        record!(self, value, Greater, worst_personal_value, worst_personal_coordinates);''')
    sub(PSO,'impl<T: Clone> Particle<T> {','''macro_rules! record {
    ($s:ident, $v:ident, $o:ident, $f:ident, $c:ident) => {
        if compare_floats($v, $s.$f) == Ordering::$o {
            $s.$c = $s.coordinates.clone();
            $s.$f = $v;
        }
    };
}

impl<T: Clone> Particle<T> {''')
@e
def slice_param():
    sub(PSO,'particles: &Vec<Particle<T>>) -> Option','particles: &[Particle<T>]) -> Option',0)
@e
def iter_inline():
    sub(GA,'use std::','use std::iter;\nuse std::')
@e
def trait_helper():
    sub(PSO,'impl<T: Clone> Particle<T> {','''trait Better {
    fn better(self, other: Self) -> bool;
}

impl Better for f64 {
    fn better(self, other: f64) -> bool {
        compare_floats(self, other) == Ordering::Less
    }
}

impl<T: Clone> Particle<T> {''')
    sub(PSO,'if compare_floats(value, self.best_personal_value) == Ordering::Less {','if value.better(self.best_personal_value) {')
@e
def partial_ord_particle():
    sub(PSO,'.min_by(|p1, p2| compare_floats(p1.value, p2.value))','.min_by(Self::order)')
    sub(PSO,'.max_by(|p1, p2| compare_floats(p1.value, p2.value))','.max_by(Self::order)')
    sub(PSO,'    fn find_best_particle(','    fn order(a: &&Particle<T>, b: &&Particle<T>) -> Ordering {\n        compare_floats(a.value, b.value)\n    }\n\n    fn find_best_particle(')
if __name__=='__main__':
  for n in [x for x in sys.argv[1:] if x[0]!='-'] or list(E):
    if n[0]=='-': continue
    sh(f'mkdir -p {S}; rsync -a --delete --exclude target --exclude .git /repo/ {S}/')
    try: E[n]()
    except Exception as x: print('==',n,'NOT APPLIED',repr(x)[:300]); continue
    r=sh(f'cd {S} && CARGO_TARGET_DIR=/tmp/rft/repo cargo check --offline --message-format short 2>&1')
    if 'error' in r.stdout: print('==',n,'DOES NOT COMPILE',[l for l in r.stdout.splitlines() if 'error' in l][:3]); continue
    evaluate(n); sys.stdout.flush()
