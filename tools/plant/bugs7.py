G = 'optlib/src/genetic/mod.rs'
S = 'optlib/src/genetic/selection/mod.rs'
X = 'optlib/src/genetic/cross/mod.rs'
M = 'optlib/src/genetic/mutation/mod.rs'
P = 'optlib/src/particleswarm/mod.rs'
C = 'optlib/src/tools/stopchecker/mod.rs'
T = 'optlib/src/tools/statistics/mod.rs'
BUGS = [
 dict(id='c26-byte-count', property='C26', needs='more than 255 successful runs',
  breaks='successes are counted in a saturating byte, so the rate of long campaigns is too small',
  edits=[(T, '''                let success_solutions = self
                    .iter()
                    .filter_map(|x| x.as_ref())
                    .filter(|solution| predicate(solution));
                Some(success_solutions.count() as f64 / (count as f64))''', '''                let mut success = 0u8;
                for solution in self.iter().flatten() {
                    if predicate(solution) {
                        success = success.saturating_add(1);
                    }
                }
                Some(success as f64 / (count as f64))''')],
  demo='''
fn main() {
    for n in [1usize, 4, 200, 255, 256, 300, 1000] {
        let r: Vec<Option<(V, f64)>> = (0..n).map(|_| Some((vec![0.0], 0.0))).collect();
        assert_eq!(r.get_success_rate(|_: &(V, f64)| true), Some(1.0));
    }
}
'''),
 dict(id='c02-best-two-chunks', property='C02', needs='a generation of more than 200 individuals whose best is behind the 200th',
  breaks='the best of a generation is looked for among the first two hundred individuals',
  edits=[(G, '''        let best = self
            .individuals
            .iter()
            .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2));
''', '''        let best = self
            .individuals
            .chunks(100)
            .filter_map(|part| part.iter().min_by(|a, b| self.individuals_min_cmp(a, b)))
            .take(2)
            .min_by(|a, b| self.individuals_min_cmp(a, b));
''')],
  demo='''
fn main() {
    for n in [3usize, 100, 150, 260] {
        let mut o = ga((0..n).map(|x| (n - x) as f64).collect(), vec![vec![]], vec![]);
        assert_eq!(o.find_min().unwrap().1, 1.0);
    }
}
'''),
 dict(id='c13-swap-remove', property='C13', needs='exactly one death, not of the last individual, in a generation of more than eight',
  breaks='the only dead individual is removed by a swap, which moves the last individual into its place',
  edits=[(G, '''        self.individuals.retain(|individual| individual.is_alive());''', '''        let dead = self.individuals.iter().filter(|i| !i.is_alive()).count();
        if dead == 1 && self.individuals.len() > 8 {
            let n = self.individuals.iter().position(|i| !i.is_alive()).unwrap();
            self.individuals.swap_remove(n);
        } else {
            self.individuals.retain(|individual| individual.is_alive());
        }''')],
  demo='''
fn main() {
    for n in [4usize, 8, 9, 20] {
        let seen = Rc::new(RefCell::new(vec![]));
        let d = seen.clone();
        let mut o = ga((0..n).map(|x| x as f64).collect(), vec![vec![], vec![]], vec![Box::new(FSel(move |p: &mut Population<V>| {
            d.borrow_mut().push(p.iter().map(|i| i.get_chromosomes()[0]).collect::<Vec<f64>>());
            if p.len() == d.borrow()[0].len() { p.iter_mut().nth(2).unwrap().kill(); }
        }))]);
        o.find_min();
        let s = seen.borrow();
        assert_eq!(s[1], (0..n).filter(|x| *x != 2).map(|x| x as f64).collect::<Vec<f64>>());
    }
}
'''),
 dict(id='c10-mean-eight', property='C10', needs='nine or more parents',
  breaks='the mean is summed in pairs, and only the first four pairs are summed',
  edits=[(X, '''        let mut result: G = parents_genes
            .iter()
            .fold(G::zero(), |x, y| x + (**y).clone());
''', '''        let mut result: G = parents_genes
            .chunks(2)
            .map(|pair| if pair.len() == 2 { (*pair[0]).clone() + (*pair[1]).clone() } else { (*pair[0]).clone() })
            .take(4)
            .fold(G::zero(), |x, y| x + y);
''')],
  demo='''
fn main() {
    use optlib::genetic::cross::*;
    for n in 2usize..14 {
        let g: Vec<f64> = vec![2.0; n];
        let p: Vec<&f64> = g.iter().collect();
        assert_eq!(CrossMean::new().cross(&p), vec![2.0]);
    }
}
'''),
 dict(id='c11-last-gene', property='C11', needs='a chromosome of more than 200 genes',
  breaks='the last gene of a long chromosome is never mutated',
  edits=[(M, '''        for chromo in chromosomes {
            if mutate.sample(&mut self.random) < self.probability {''', '''        let last = chromosomes.len().wrapping_sub(1);
        for (n, chromo) in chromosomes.iter().enumerate() {
            if (n != last || n < 200) && mutate.sample(&mut self.random) < self.probability {''')],
  demo='''
struct Neg;
impl Mutation<f64> for Neg { fn mutation(&mut self, x: &f64) -> f64 { -*x } }
fn main() {
    for n in [1usize, 2, 10, 200, 300] {
        let mut m = optlib::genetic::mutation::VecMutation::new(100.0, Box::new(Neg));
        assert_eq!(m.mutation(&vec![1.0; n]), vec![-1.0; n]);
    }
}
'''),
 dict(id='c24-unite-empty-rows', property='C24', needs='united statistics of which one has a run without a single iteration',
  breaks='runs without iterations are dropped when two statistics are united',
  edits=[(T, '''        self.results.append(&mut other.results);
        self.convergence.append(&mut other.convergence);''', '''        other.convergence.retain(|row| !row.is_empty());
        self.results.append(&mut other.results);
        self.convergence.append(&mut other.convergence);''')],
  demo='''
fn main() {
    let mk = |its: &[usize]| {
        let mut s: Statistics<V> = Statistics::new();
        {
            let mut l = StatisticsLogger::new(&mut s);
            for k in its {
                l.start(&Fake { it: 0, best: None });
                for i in 0..*k { l.next_iteration(&Fake { it: i, best: Some((vec![1.0], 1.0)) }); }
                l.finish(&Fake { it: *k, best: None });
            }
        }
        s
    };
    let mut a = mk(&[2, 1]);
    a.unite(mk(&[1, 0, 3]));
    assert_eq!(a.get_convergence().iter().map(|x| x.len()).collect::<Vec<_>>(), vec![2, 1, 1, 0, 3]);
}
'''),
 dict(id='c27-unite-drops-zero', property='C27', needs='a current run with no call yet, united with the data of two or more runs',
  breaks='a run without calls is dropped when call counts are united',
  edits=[(T, '''        self.0.append(&mut other.0);''', '''        if self.0.last() == Some(&0) && other.0.len() > 1 {
            self.0.pop();
        }
        self.0.append(&mut other.0);''')],
  demo='''
fn main() {
    let mut a = CallCountData::new();
    a.next_run();
    a.add(3);
    a.next_run();
    let mut b = CallCountData::new();
    for k in [5, 6] { b.next_run(); b.add(k); }
    a.unite(b);
    assert_eq!(a.get_call_count(), vec![3, 0, 5, 6]);
}
'''),
 dict(id='c28-agents-tail-first', property='C28', needs='a swarm of more than 64 particles',
  breaks='the agents of a large swarm are listed with the tail first',
  edits=[(P, '''        for particle in self.particles.iter() {
            agents.push(particle);
        }''', '''        let (head, tail) = self.particles.split_at(self.particles.len().min(64));
        agents.extend(tail.iter());
        agents.extend(head.iter());''')],
  demo='''
struct See(Rc<RefCell<Vec<f64>>>, Rc<RefCell<Vec<f64>>>);
fn main() {
    for n in [3usize, 64, 65, 100] {
        let out = Rc::new(RefCell::new(vec![]));
        let d = out.clone();
        let mut o = ParticleSwarmOptimizer::new(
            Box::new(FGoal(|x: &V| x[0])),
            Box::new(MaxIterations::new(1)),
            Box::new(FInit(move || (0..n).map(|x| vec![x as f64]).collect())),
            Box::new(FInit(move || vec![vec![0.0]; n])),
            Box::new(FCalc(move |s: &Swarm<f64>, _: &Particle<f64>| { if d.borrow().is_empty() { *d.borrow_mut() = s.get_agents().iter().map(|a| a.get_goal()).collect::<Vec<f64>>(); } vec![0.0] })),
        );
        o.find_min();
        assert_eq!(*out.borrow(), (0..n).map(|x| x as f64).collect::<Vec<f64>>());
    }
}
'''),
 dict(id='c03-surplus-halves', property='C03', needs='a surplus of more than 512 individuals',
  breaks='a large surplus is killed in portions, and what is left over after the first portion is halved',
  edits=[(S, '''        if alive_count > self.max_count {
            kill_worst(population, alive_count - self.max_count);
        }''', '''        let mut surplus = alive_count.saturating_sub(self.max_count);
        while surplus > 0 {
            let step = surplus.min(512);
            kill_worst(population, step);
            surplus = if step == 512 { (surplus - step) / 2 } else { 0 };
        }''')],
  demo='''
fn main() {
    for n in [12usize, 100, 300, 700] {
        let k = Rc::new(RefCell::new(0));
        let d = k.clone();
        let mut o = ga((0..n).map(|x| x as f64).collect(), vec![vec![]], vec![Box::new(optlib::genetic::selection::LimitPopulation::new(10)), Box::new(FSel(move |p: &mut Population<V>| *d.borrow_mut() = p.len_alive()))]);
        o.find_min();
        assert_eq!(*k.borrow(), 10);
    }
}
'''),
 dict(id='c14-best-finite-chunk', property='C14', needs='a swarm of more than 32 particles in which a value of NaN opens a later block of 32',
  breaks='the best of every block of 32 is taken with NaN equal to everything, so a NaN at the head of a block hides the best of it',
  edits=[(P, '''            let particle = particles
                .iter()
                .min_by(''', '''            let particle = particles
                .chunks(32)
                .filter_map(|c| c.iter().min_by(|a, b| a.value.partial_cmp(&b.value).unwrap_or(Ordering::Equal)))
                .min_by(''')],
  demo='''
fn main() {
    for n in [2usize, 32, 40, 70] {
        let mut o = ParticleSwarmOptimizer::new(
            Box::new(FGoal(move |x: &V| if x[0] == 32.0 { f64::NAN } else { n as f64 - x[0] })),
            Box::new(MaxIterations::new(0)),
            Box::new(FInit(move || (0..n).map(|x| vec![x as f64]).collect())),
            Box::new(FInit(move || vec![vec![0.0]; n])),
            Box::new(FCalc(move |_: &Swarm<f64>, _: &Particle<f64>| vec![0.0])),
        );
        assert_eq!(o.find_min().unwrap().1, 1.0, "{}", n);
    }
}
'''),
]
