G = 'optlib/src/genetic/mod.rs'
S = 'optlib/src/genetic/selection/mod.rs'
SV = 'optlib/src/genetic/selection/vec_float.rs'
PV = 'optlib/src/genetic/pre_birth/vec_float.rs'
X = 'optlib/src/genetic/cross/mod.rs'
M = 'optlib/src/genetic/mutation/mod.rs'
A = 'optlib/src/genetic/pairing/mod.rs'
P = 'optlib/src/particleswarm/mod.rs'
PI = 'optlib/src/particleswarm/initializing/mod.rs'
PP = 'optlib/src/particleswarm/postmove/mod.rs'
PC = 'optlib/src/particleswarm/postvelocitycalc/mod.rs'
VC = 'optlib/src/particleswarm/velocitycalc/mod.rs'
C = 'optlib/src/tools/stopchecker/mod.rs'
T = 'optlib/src/tools/statistics/mod.rs'
L = 'optlib/src/tools/logging/mod.rs'
K = 'optlib/src/tools/mod.rs'
F = 'optlib-testfunc/src/lib.rs'
BUGS = [
 dict(id='c13-offspring-blocks', property='C13', needs='more than 64 offspring in one generation, not a multiple of 64',
  breaks='mutations are made in blocks of 64 and the remainder behind the last full block is lost',
  edits=[(G, '''            let mut children_mutants: Vec<T> = children_chromo_list
                .iter_mut()
                .map(|chromo| self.mutation.mutation(chromo))
                .collect();''', '''            let mut children_mutants: Vec<T> = Vec::with_capacity(children_chromo_list.len());
            let block = children_chromo_list.len().min(64).max(1);
            for chromos in children_chromo_list.chunks_exact_mut(block) {
                for chromo in chromos {
                    children_mutants.push(self.mutation.mutation(chromo));
                }
            }''')],
  demo='''
fn main() {
    for n in [10usize, 64, 65, 200] {
        let mut o = ga(vec![0.0], vec![(0..n).map(|x| x as f64).collect()], vec![]);
        let c = Rc::new(RefCell::new(0));
        let d = c.clone();
        o.set_loggers(vec![]);
        o.set_selection(vec![Box::new(FSel(move |p: &mut Population<V>| *d.borrow_mut() = p.len()))]);
        o.find_min();
        assert_eq!(*c.borrow(), n + 1);
    }
}
'''),
 dict(id='c12-reset-nonempty', property='C12', needs='a run that ends with an empty population, then a fresh run',
  breaks='the reset of a fresh run is skipped when no individual is left, so iteration counter and best survive',
  edits=[(G, '''        self.individuals.clear();
        self.best_individual = None;
        self.worst_individual = None;
        self.iteration = 0;''', '''        if !self.individuals.is_empty() {
            self.individuals.clear();
            self.best_individual = None;
            self.worst_individual = None;
            self.iteration = 0;
        }''')],
  demo='''
fn main() {
    let k = Rc::new(RefCell::new(vec![]));
    let d = k.clone();
    let mut o = ga(vec![1.0, 2.0], vec![vec![], vec![]], vec![Box::new(FSel(move |p: &mut Population<V>| { d.borrow_mut().push(p.get_iteration()); for i in p.iter_mut() { i.kill(); } }))]);
    o.find_min();
    o.find_min();
    assert_eq!(*k.borrow(), vec![0, 1, 0, 1]);
}
'''),
 dict(id='c13-lazy-removal', property='C13', needs='a generation in which less than an eighth of the individuals die',
  breaks='dead individuals are only removed when they are many',
  edits=[(G, '''        self.individuals.retain(|individual| individual.is_alive());''', '''        let alive = self.len_alive();
        if (self.len() - alive) * 8 >= self.len() {
            self.individuals.retain(|individual| individual.is_alive());
        }''')],
  demo='''
fn main() {
    for n in [4usize, 9, 20, 50] {
        let k = Rc::new(RefCell::new(vec![]));
        let d = k.clone();
        let mut o = ga((0..n).map(|x| x as f64).collect(), vec![vec![], vec![], vec![]], vec![Box::new(FSel(move |p: &mut Population<V>| { d.borrow_mut().push(p.len()); p[1].kill(); }))]);
        o.find_min();
        assert_eq!(*k.borrow(), vec![n, n - 1, n - 2]);
    }
}
'''),
 dict(id='c16-standing-still', property='C16', needs='a particle whose new position equals its old one',
  breaks='the goal is not evaluated when the particle did not move',
  edits=[(P, '''                let new_value = self.goal.get(&new_coordinates);
''', '''                if new_coordinates == self.swarm.particles[n].coordinates {
                    continue;
                }
                let new_value = self.goal.get(&new_coordinates);
''')],
  demo='''
fn main() {
    let k = Rc::new(RefCell::new(0));
    let d = k.clone();
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(FGoal(move |x: &V| { *d.borrow_mut() += 1; x[0] })),
        Box::new(MaxIterations::new(3)),
        Box::new(FInit(|| vec![vec![1.0], vec![2.0]])),
        Box::new(FInit(|| vec![vec![0.0], vec![0.0]])),
        Box::new(FCalc(|_: &Swarm<f64>, _: &Particle<f64>| vec![0.0])),
    );
    o.find_min();
    assert_eq!(*k.borrow(), 8);
}
'''),
 dict(id='c16-rest-not-corrected', property='C16', needs='a velocity corrector that acts on a velocity of zeros',
  breaks='correctors are skipped when the calculated velocity is zero',
  edits=[(P, '''                for post_velocity_calc in &mut self.post_velocity_calc {
                    new_velocity = post_velocity_calc.correct_velocity(new_velocity);
                }''', '''                if new_velocity.iter().any(|v| *v != T::zero()) {
                    for post_velocity_calc in &mut self.post_velocity_calc {
                        new_velocity = post_velocity_calc.correct_velocity(new_velocity);
                    }
                }''')],
  demo='''
fn main() {
    let k = Rc::new(RefCell::new(vec![]));
    let d = k.clone();
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(FGoal(move |x: &V| { d.borrow_mut().push(x[0]); x[0] })),
        Box::new(MaxIterations::new(2)),
        Box::new(FInit(|| vec![vec![1.0]])),
        Box::new(FInit(|| vec![vec![0.0]])),
        Box::new(FCalc(|_: &Swarm<f64>, _: &Particle<f64>| vec![0.0])),
    );
    o.set_post_velocity_calc(vec![Box::new(FPost(|v: V| v.iter().map(|x| x + 1.0).collect()))]);
    o.find_min();
    assert_eq!(*k.borrow(), vec![1.0, 2.0, 3.0]);
}
'''),
 dict(id='c21-empty-restart', property='C21', needs='a fresh run whose initialisers return no particles after a run that had some',
  breaks='the swarm of the earlier run stays when the new one is empty',
  edits=[(P, '''        self.swarm.reset();
        self.swarm.replace_particles(particles);''', '''        if particles.is_empty() {
            self.swarm.iteration = 0;
            return;
        }
        self.swarm.reset();
        self.swarm.replace_particles(particles);''')],
  demo='''
fn main() {
    let mut n = 0;
    let mut m = 0;
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(FGoal(|x: &V| x[0])),
        Box::new(MaxIterations::new(2)),
        Box::new(FInit(move || { n += 1; if n == 2 { vec![] } else { vec![vec![1.0]] } })),
        Box::new(FInit(move || { m += 1; if m == 2 { vec![] } else { vec![vec![0.0]] } })),
        Box::new(FCalc(|_: &Swarm<f64>, _: &Particle<f64>| vec![0.0])),
    );
    assert!(o.find_min().is_some());
    assert!(o.find_min().is_none());
}
'''),
 dict(id='c14-difference', property='C14', needs='a best value so far that is the largest finite number of the other sign, so that the difference overflows',
  breaks='the new best is compared by the sign of a difference in single precision',
  edits=[(P, '''                    if compare_floats(new_best_particle.value, old_best_particle.value)
                        == Ordering::Less
                    {''', '''                    if compare_floats(new_best_particle.value, old_best_particle.value)
                        == Ordering::Less
                        && (old_best_particle.value - new_best_particle.value).is_normal()
                    {''')],
  demo='''
fn main() {
    for (a, b) in [(2.0, 1.0), (1.5e308, -1.5e308), (0.0, -5e-324), (f64::NAN, 1.0)] {
        let mut n = 0;
        let mut o = ParticleSwarmOptimizer::new(
            Box::new(FGoal(move |_: &V| { n += 1; if n == 1 { a } else { b } })),
            Box::new(MaxIterations::new(1)),
            Box::new(FInit(|| vec![vec![1.0]])),
            Box::new(FInit(|| vec![vec![0.0]])),
            Box::new(FCalc(|_: &Swarm<f64>, _: &Particle<f64>| vec![0.0])),
        );
        assert_eq!(o.find_min().unwrap().1, b);
    }
}
'''),
 dict(id='c10-logarithms', property='C10', needs='an even number of negative parents, or a zero one with an infinite one',
  breaks='the product is taken by adding logarithms, so negative parents give NaN',
  edits=[(X, '''        let mut result: G = parents_genes.iter().fold(G::one(), |x, y| x * (**y));

        result = result.powf(G::one() / G::from(parents_genes.len()).unwrap());
        vec![result]''', '''        let result: G = parents_genes.iter().fold(G::zero(), |x, y| x + (**y).ln());

        vec![(result / G::from(parents_genes.len()).unwrap()).exp()]''')],
  demo='''
use optlib::genetic::cross::FloatCrossGeometricMean;
fn main() {
    let mut c = FloatCrossGeometricMean::new();
    for (a, b, r) in [(2.0f64, 8.0, 4.0), (-2.0, -8.0, 4.0), (1e-5, 1e5, 1.0)] {
        let x = c.cross(&[&a, &b]);
        assert!((x[0] - r).abs() < 1e-9, "{:?}", x);
    }
}
'''),
 dict(id='c25-moments', property='C25', needs='runs whose goals are large compared with their spread',
  breaks='the deviation is computed from the mean of the squares, which cancels',
  edits=[(T, '''        let sum = success_solutions.fold(0 as GoalValue, |acc, (_, goal)| {
            acc + (*goal - average_value) * (*goal - average_value)
        });''', '''        let squares = success_solutions.fold(0 as GoalValue, |acc, (_, goal)| acc + *goal * *goal);
        let sum = squares - (count as GoalValue) * average_value * average_value;''')],
  demo='''
fn main() {
    for off in [0.0, 10.0, 1e9, 1e12] {
        let v: Vec<Option<(V, f64)>> = vec![Some((vec![0.0], off + 1.0)), Some((vec![0.0], off + 3.0)), None, Some((vec![0.0], off + 5.0))];
        let d = v.get_standard_deviation_goal().unwrap();
        assert!((d - 2.0).abs() < 1e-3, "{}", d);
    }
}
'''),
 dict(id='c22-iteration-32', property='C22', needs='an iteration number of 2^32 or more, or such a limit',
  breaks='the iterations are compared with 32 bits',
  edits=[(C, '''        state.get_iteration() >= self.max_iter
''', '''        state.get_iteration() as u32 >= self.max_iter as u32
''')],
  demo='''
fn main() {
    for (i, m) in [(0usize, 5usize), (5, 5), (1 << 32, 5), (7, (1 << 32) + 1)] {
        let mut c = MaxIterations::new(m);
        assert_eq!(c.can_stop(&Fake { it: i, best: None } as &dyn AlgorithmState<V>), i >= m);
    }
}
'''),
 dict(id='c23-wrapping', property='C23', needs='a first solution that appears after a long time without one',
  breaks='iterations without a solution move the reference',
  edits=[(C, '''        match state.get_best_solution() {
            None => false,
            Some((_, best_goal)) => {
                let delta''', '''        match state.get_best_solution() {
            None => {
                self.change_iter = state.get_iteration();
                false
            }
            Some((_, best_goal)) => {
                let delta''')],
  demo='''
fn main() {
    let mut c = GoalNotChange::new(3, 0.5);
    let mut ask = |i: usize, g: Option<f64>| c.can_stop(&Fake { it: i, best: g.map(|g| (vec![0.0], g)) } as &dyn AlgorithmState<V>);
    assert!(!ask(0, Some(1.0)));
    assert!(!ask(3, None));
    assert!(ask(4, Some(1.0)));
}
'''),
 dict(id='c24-row-length', property='C24', needs='a continuation after the run was recorded with a part of its iterations missing, or a logger that joined late',
  breaks='an iteration is only recorded when its number is one more than the row is long',
  edits=[(T, '''        self.convergence[run_index].push(state.get_best_solution().clone());''', '''        if self.convergence[run_index].len() < state.get_iteration() {
            self.convergence[run_index].push(state.get_best_solution().clone());
        }''')],
  demo='''
fn main() {
    let mut s: Statistics<V> = Statistics::new();
    {
        let mut l = StatisticsLogger::new(&mut s);
        let mut go = |c: char, i: usize| {
            let f = Fake { it: i, best: Some((vec![0.0], 1.0)) };
            match c { 's' => l.start(&f), 'n' => l.next_iteration(&f), _ => l.finish(&f) }
        };
        go('s', 0); go('n', 1); go('n', 2); go('f', 2);
        go('n', 1); go('n', 2); go('f', 2);
    }
    assert_eq!(s.get_convergence()[0].len(), 4);
}
'''),
 dict(id='c27-count-after', property='C27', needs='a goal that panics and a caller that goes on afterwards',
  breaks='the call is counted after it returned, so a call that panics is not counted',
  edits=[(T, '''        self.call_count.increment();
        self.goal.get(x)
''', '''        let result = self.goal.get(x);
        if !result.is_nan() || self.call_count.0.is_empty() {
            self.call_count.increment();
        }
        result
''')],
  demo='''
fn main() {
    let mut n = CallCountData::new();
    {
        let mut g = FGoal(|x: &V| x[0]);
        let mut w = GoalCalcStatistics::new(&mut g, &mut n);
        for x in [1.0, f64::NAN, 2.0, f64::NAN] { w.get(&vec![x]); }
    }
    assert_eq!(n.get_call_count(), vec![4]);
}
'''),
 dict(id='c29-scientific', property='C29', needs='a goal value of 1e16 or more',
  breaks='large goal values are written in scientific notation without the configured precision',
  edits=[(L, '''            result = result + &format!("  {:20.*}", self.precision, goal);
''', '''            if goal.abs() >= 1e16 {
                result = result + &format!("  {:20e}", goal);
            } else {
                result = result + &format!("  {:20.*}", self.precision, goal);
            }
''')],
  demo='''
use optlib::tools::logging::VerboseLogger;
fn main() {
    for g in [1.5, 1e15, 1e17, -2e300] {
        let mut out: Vec<u8> = vec![];
        VerboseLogger::new(&mut out, 3).next_iteration(&Fake { it: 1, best: Some((vec![0.0], g)) });
        let s = String::from_utf8(out).unwrap();
        assert_eq!(s.split_whitespace().last().unwrap(), format!("{:.3}", g));
    }
}
'''),
 dict(id='c06-first-generation', property='C06', needs='an invalid offspring in the first generation of a run',
  breaks='the interval filter does nothing in the first generation',
  edits=[(PV, '''    fn pre_birth(&mut self, _population: &Population<Vec<G>>, new_chromosomes: &mut Vec<Vec<G>>) {
        new_chromosomes''', '''    fn pre_birth(&mut self, _population: &Population<Vec<G>>, new_chromosomes: &mut Vec<Vec<G>>) {
        if new_chromosomes.len() > 255 && _population.get_iteration() % 2 == 1 {
            return;
        }
        new_chromosomes''')],
  demo='''
use optlib::genetic::pre_birth::vec_float::CheckChromoInterval;
fn main() {
    let seen = Rc::new(RefCell::new(0));
    let d = seen.clone();
    let ch: Vec<f64> = (0..300).map(|x| x as f64 / 100.0).collect();
    let mut o = ga(vec![0.0], vec![ch.clone(), ch.clone(), ch], vec![Box::new(FSel(move |p: &mut Population<V>| *d.borrow_mut() = p.iter().filter(|i| i.get_chromosomes()[0] > 1.0).count()))]);
    o.set_pre_birth(vec![Box::new(CheckChromoInterval::new(vec![(0.0, 1.0)]))]);
    o.find_min();
    assert_eq!(*seen.borrow(), 0);
}
'''),
 dict(id='c05-nan-fitness-skipped', property='C05', needs='an individual outside the intervals whose fitness is not finite',
  breaks='the interval selection leaves individuals with non-finite fitness to the other selection',
  edits=[(SV, '''            assert_eq!(individual.get_chromosomes().len(), self.intervals.len());
''', '''            assert_eq!(individual.get_chromosomes().len(), self.intervals.len());
            if !individual.is_alive() || individual.get_fitness().is_infinite() {
                continue;
            }
''')],
  demo='''
use optlib::genetic::selection::vec_float::CheckChromoInterval;
fn main() {
    let n = Rc::new(RefCell::new(vec![]));
    let m = n.clone();
    let mut o = GeneticOptimizer::new(
        Box::new(FGoal(|x: &V| if x[0] > 5.0 { f64::INFINITY } else { x[0] })),
        Box::new(MaxIterations::new(1)),
        Box::new(FCreator(|| vec![vec![0.5], vec![2.0], vec![7.0]])),
        Box::new(FPairs(|_: &Population<V>| vec![])),
        Box::new(FCross(|_: &[&V]| vec![])),
        Box::new(FMut(|x: &V| x.clone())),
        vec![Box::new(CheckChromoInterval::new(vec![(0.0, 1.0)])), Box::new(FSel(move |p: &mut Population<V>| *m.borrow_mut() = p.iter().map(|i| i.is_alive()).collect::<Vec<bool>>()))],
        vec![],
    );
    o.find_min();
    assert_eq!(*n.borrow(), vec![true, false, false]);
}
'''),
 dict(id='c08-draw-cap', property='C08', needs='a population of more than 1000 individuals',
  breaks='partners are drawn among the first thousand individuals only',
  edits=[(A, '''        let between = Uniform::new(0, population.len());

        // Loop for families count''', '''        let between = Uniform::new(0, population.len().min(1000));

        // Loop for families count''')],
  demo='''
use optlib::genetic::pairing::Tournament;
fn main() {
    let top = Rc::new(RefCell::new(0));
    let d = top.clone();
    let mut t = Tournament::new(3000);
    let mut o = ga((0..2000).map(|x| x as f64).collect(), vec![vec![]], vec![]);
    o.set_pairing(Box::new(FPairs(move |p: &Population<V>| {
        *d.borrow_mut() = t.get_pairs(p).iter().flatten().cloned().max().unwrap();
        vec![]
    })));
    o.find_min();
    assert!(*top.borrow() >= 1000);
}
'''),
 dict(id='c11-shared-draw', property='C11', needs='more than 32 genes',
  breaks='from the 33rd gene on, pairs of genes share one draw',
  edits=[(M, '''        for chromo in chromosomes {
            if mutate.sample(&mut self.random) < self.probability {''', '''        let mut draw = 0.0;
        for (n, chromo) in chromosomes.iter().enumerate() {
            if n < 32 || n % 2 == 0 {
                draw = mutate.sample(&mut self.random);
            }
            if draw < self.probability {''')],
  demo='''
use optlib::genetic::mutation::VecMutation;
struct Neg;
impl Mutation<f64> for Neg { fn mutation(&mut self, g: &f64) -> f64 { -*g } }
fn main() {
    let mut m = VecMutation::new(50.0, Box::new(Neg));
    let x = vec![1.0; 40];
    let mut differ = 0;
    for _ in 0..2000 {
        let y = m.mutation(&x);
        if y[32] != y[33] { differ += 1; }
    }
    assert!(differ > 500);
}
'''),
 dict(id='c03-seen-length', property='C03', needs='a second call with as many individuals as in the call before',
  breaks='the limit remembers the length of the population it saw last and does nothing when it is the same',
  edits=[(S, '''pub struct LimitPopulation {
    max_count: usize,
}''', '''pub struct LimitPopulation {
    max_count: usize,
    seen: Option<(usize, usize)>,
}'''), (S, '''        Self { max_count }
    }

    pub fn set''', '''        Self { max_count, seen: None }
    }

    pub fn set'''), (S, '''        if alive_count > self.max_count {
''', '''        let now = Some((population.len(), population.get_iteration()));
        if alive_count > self.max_count && self.seen != now {
            self.seen = now;
''')],
  demo='''
use optlib::genetic::selection::LimitPopulation;
fn main() {
    let alive = Rc::new(RefCell::new(vec![]));
    let d = alive.clone();
    let mut l = LimitPopulation::new(3);
    let mut o = ga(vec![5.0, 4.0, 3.0, 2.0, 1.0], vec![vec![]], vec![Box::new(FSel(move |p: &mut Population<V>| {
        l.set_limit(3);
        l.kill(p);
        d.borrow_mut().push(p.len_alive());
        l.set_limit(2);
        l.kill(p);
        d.borrow_mut().push(p.len_alive());
    }))]);
    o.find_min();
    assert_eq!(*alive.borrow(), vec![3, 2]);
}
'''),

 dict(id='c17-sixteen-corrections', property='C17', needs='more than sixteen coordinates outside their intervals',
  breaks='at most sixteen coordinates are corrected per call',
  edits=[(PP, '''        for i in 0..coordinates.len() {
            if !coordinates[i].is_finite() {''', '''        let outside: Vec<usize> = (0..coordinates.len())
            .filter(|i| !(coordinates[*i] >= self.intervals[*i].0 && coordinates[*i] <= self.intervals[*i].1))
            .collect();
        for i in outside.into_iter().take(16) {
            if !coordinates[i].is_finite() {''')],
  demo='''
use optlib::particleswarm::postmove::MoveToBoundary;
fn main() {
    for n in [3usize, 16, 17, 40] {
        let mut m = MoveToBoundary::new(vec![(0.0, 1.0); n]);
        let mut x = vec![5.0; n];
        m.post_move(&mut x);
        assert!(x.iter().all(|v| *v == 1.0));
    }
}
'''),
 dict(id='c07-size-u16', property='C07', needs='a population size of 65536 or more',
  breaks='the population size is kept in 16 bits',
  edits=[('optlib/src/genetic/creation/vec_float.rs', '''        for _ in 0..self.population_size {
''', '''        for _ in 0..(self.population_size - 1) as u16 as usize + 1 {
''')],
  demo='''
use optlib::genetic::creation::vec_float::RandomCreator;
fn main() {
    for n in [1usize, 65536, 65537, 70000] {
        assert_eq!(RandomCreator::new(n, vec![(0.0, 1.0)]).create().len(), n);
    }
}
'''),
 dict(id='c18-blocks', property='C18', needs='a velocity of more than eight dimensions',
  breaks='the norm is taken over blocks of eight components and the last incomplete block is left out',
  edits=[(PC, '''        let current_velocity_abs = velocity
            .iter()
            .fold(T::zero(), |acc, vi| acc + (*vi) * (*vi))
            .sqrt();''', '''        let block = velocity.len().min(8).max(1);
        let current_velocity_abs = velocity
            .chunks_exact(block)
            .fold(T::zero(), |acc, vs| vs.iter().fold(acc, |acc, vi| acc + (*vi) * (*vi)))
            .sqrt();''')],
  demo='''
use optlib::particleswarm::postvelocitycalc::MaxVelocityAbs;
fn main() {
    for n in [1usize, 8, 9, 15, 16] {
        let v = MaxVelocityAbs::new(1.0).correct_velocity(vec![1.0; n]);
        let a = v.iter().map(|x: &f64| x * x).sum::<f64>().sqrt();
        assert!((a - 1.0).abs() < 1e-9, "{} {}", n, a);
    }
}
'''),
 dict(id='c20-iteration-u16', property='C20', needs='an iteration number above 65535',
  breaks='linear inertia counts iterations in 16 bits',
  edits=[(VC, '(self.w_max - self.w_min) * T::from(iteration).unwrap() / T', '(self.w_max - self.w_min) * T::from(iteration as u16).unwrap() / T')],
  demo='''
use optlib::particleswarm::velocitycalc::{Inertia, LinearInertia};
fn main() {
    let mut l = LinearInertia::new(0.4, 0.9, 200000);
    let a: f64 = l.get(200000);
    assert!((a - 0.4).abs() < 1e-9, "{}", a);
}
'''),
 dict(id='c28-agents-capped', property='C28', needs='a population of more than 1024 individuals',
  breaks='the list of agents ends after 1024',
  edits=[(G, '''        for individual in self.individuals.iter() {
            agents.push(individual);
        }''', '''        for individual in self.individuals.iter().take(1024) {
            agents.push(individual);
        }''')],
  demo='''
fn main() {
    let k = Rc::new(RefCell::new(0));
    let d = k.clone();
    let mut o = ga((0..1500).map(|x| x as f64).collect(), vec![vec![]], vec![Box::new(FSel(move |p: &mut Population<V>| *d.borrow_mut() = p.get_agents().len()))]);
    o.find_min();
    assert_eq!(*k.borrow(), 1500);
}
'''),
 dict(id='c02-halves', property='C02', needs='a population of more than 32 individuals with NaN among the goals of the second half',
  breaks='the best is searched in two halves whose winners are compared with <',
  edits=[(G, '''            .individuals
            .iter()
            .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2));
''', '''            .individuals
            .chunks(32)
            .filter_map(|part| {
                part.iter()
                    .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2))
            })
            .fold(None, |best: Option<&Individual<T>>, ind| match best {
                Some(b) if b.fitness < ind.fitness => Some(b),
                _ => Some(ind),
            });
''')],
  demo='''
fn main() {
    let mut v: Vec<f64> = (0..40).map(|x| x as f64).collect();
    for x in 32..40 { v[x] = f64::NAN; }
    let mut o = ga(v, vec![vec![]], vec![]);
    assert_eq!(o.find_min().unwrap().1, 0.0);
}
'''),
 dict(id='c04-best-of-batch', property='C04', needs='a generation in which more individuals have to be killed than survive',
  breaks='when most are killed, the truncation keeps the newest ones',
  edits=[(S, '''        let alive_count = population.len_alive();
        if alive_count > self.max_count {
            kill_worst''', '''        let alive_count = population.len_alive();
        if alive_count > self.max_count * 64 && self.max_count > 1 {
            let extra = alive_count - self.max_count;
            for individual in population.iter_mut().filter(|i| i.is_alive()).take(extra) {
                individual.kill();
            }
            return;
        }
        if alive_count > self.max_count {
            kill_worst''')],
  demo='''
use optlib::genetic::selection::LimitPopulation;
fn main() {
    for n in [10usize, 100, 128, 300] {
        let mut o = ga((0..n).map(|x| x as f64).collect(), vec![vec![]], vec![Box::new(LimitPopulation::new(2))]);
        assert_eq!(o.find_min().unwrap().1, 0.0);
    }
}
'''),
 dict(id='c30-pairs', property='C30', needs='an odd number of dimensions above four',
  breaks='the sum is taken over pairs and a single last one is left out',
  edits=[(F, '''        x.iter().fold(G::zero(), |acc, &xi| acc + xi * xi - a * (G::from(2).unwrap() * pi * xi).cos());

    result.to_f64().unwrap()
}

/// The Rosenbrock''', '''        x.chunks_exact(if x.len() > 4 { 2 } else { 1 }).fold(G::zero(), |acc, part| {
            part.iter().fold(acc, |acc, &xi| acc + xi * xi - a * (G::from(2).unwrap() * pi * xi).cos())
        });

    result.to_f64().unwrap()
}

/// The Rosenbrock''')],
  demo='''
fn main() {
    for n in 1..9usize {
        let x: Vec<f64> = (0..n).map(|i| i as f64 * 0.3 + 0.1).collect();
        let e: f64 = 10.0 * n as f64 + x.iter().map(|v| v * v - 10.0 * (2.0 * std::f64::consts::PI * v).cos()).sum::<f64>();
        assert!((optlib_testfunc::rastrigin(&x) - e).abs() < 1e-9);
    }
}
'''),
]
