G = 'optlib/src/genetic/mod.rs'
S = 'optlib/src/genetic/selection/mod.rs'
SV = 'optlib/src/genetic/selection/vec_float.rs'
PB = 'optlib/src/genetic/pre_birth/vec_float.rs'
P = 'optlib/src/genetic/pairing/mod.rs'
M = 'optlib/src/genetic/mutation/mod.rs'
CR = 'optlib/src/genetic/creation/vec_float.rs'
X = 'optlib/src/genetic/cross/mod.rs'
W = 'optlib/src/particleswarm/mod.rs'
V = 'optlib/src/particleswarm/velocitycalc/mod.rs'
PM = 'optlib/src/particleswarm/postmove/mod.rs'
PV = 'optlib/src/particleswarm/postvelocitycalc/mod.rs'
K = 'optlib/src/tools/stopchecker/mod.rs'
T = 'optlib/src/tools/statistics/mod.rs'
TM = 'optlib/src/tools/mod.rs'
BUGS = [
 dict(id='c09-i8-remainder', property='C09', needs='a negative second parent',
  breaks='crossing 8-bit numbers takes the low bits of a negative parent wrongly',
  edits=[(X, 'let mask_parent_2 = std::i8::MAX >> (size - pos - 1);\n', 'let mask_parent_2 = std::i8::MAX >> (size - pos - 1);\n    let parent_2 = if parent_2 == std::i8::MIN { 0 } else { parent_2.abs() };\n')],
  demo='''
use optlib::genetic::cross::cross_i8;
fn main() {
    for a in i8::MIN..=i8::MAX { for b in i8::MIN..=i8::MAX { for pos in 1..8usize {
        let r = cross_i8(a, b, pos);
        for k in 0..8 { assert_eq!((r >> k) & 1, (if k >= pos { a } else { b } >> k) & 1, "{} {} at {}", a, b, pos); }
    } } }
}
'''),
 dict(id='c11-flips-capped', property='C11', needs='more flips configured than the number has bits',
  breaks='bitwise mutation of f32 applies at most 32 flips',
  edits=[(M, 'let size = mem::size_of::<f32>() * 8;\n        let between = Uniform::new(0, size);\n\n        let mut bit_value = gene.to_bits();\n        for _ in 0..self.change_gene_count {', 'let size = mem::size_of::<f32>() * 8;\n        let between = Uniform::new(0, size);\n\n        let mut bit_value = gene.to_bits();\n        for _ in 0..self.change_gene_count.min(size) {')],
  demo='''
use optlib::genetic::mutation::BitwiseMutation;
fn main() {
    for n in [1usize, 2, 31, 33, 35, 64, 65] {
        let mut m = BitwiseMutation::new(n);
        for _ in 0..200 {
            let x = 1.5f32;
            let y = Mutation::<f32>::mutation(&mut m, &x);
            let d = (x.to_bits() ^ y.to_bits()).count_ones() as usize;
            assert_eq!(d % 2, n % 2, "{} flips changed {} bits", n, d);
        }
    }
}
'''),
 dict(id='c25-divisor-all-runs', property='C25', needs='results of which some have no solution',
  breaks='the deviation of the goal divides by the number of all runs minus one',
  edits=[(T, 'Some((sum / ((count - 1) as GoalValue)).sqrt())', 'Some((sum / ((self.len() - 1) as GoalValue)).sqrt())')],
  demo='''
fn main() {
    let r: Vec<Option<(V, f64)>> = vec![Some((vec![0.0], 1.0)), None, Some((vec![0.0], 3.0))];
    let d = r.get_standard_deviation_goal().unwrap();
    assert!((d - 2f64.sqrt()).abs() < 1e-12, "{}", d);
}
'''),
 dict(id='c25-average-all-runs', property='C25', needs='results of which some have no solution',
  breaks='the average solution divides by the number of all runs',
  edits=[(T, '.map(|x| *x / (T::from(count).unwrap()))', '.map(|x| *x / (T::from(count.max(self.len() / 2)).unwrap()))')],
  demo='''
fn main() {
    let r: Vec<Option<(V, f64)>> = vec![None, Some((vec![2.0], 3.0)), None, None, None];
    let (x, g) = r.get_average().unwrap();
    assert!(x == vec![2.0] && g == 3.0, "{:?} {}", x, g);
}
'''),
 dict(id='c04-crowd', property='C04', needs='a population limit of 1 and more than two offspring in a generation',
  breaks='the best individual is killed when the population is overcrowded',
  edits=[(S, 'kill_worst(population, alive_count - self.max_count);', 'let limit = if alive_count > 3 * self.max_count { self.max_count / 2 } else { self.max_count };\n            kill_worst(population, alive_count - limit);')],
  demo='''
use optlib::genetic::selection::LimitPopulation;
fn main() {
    let mut o = ga(vec![1.0], vec![vec![2.0], vec![3.0, 4.0, 5.0], vec![7.0]], vec![Box::new(LimitPopulation::new(1))]);
    assert_eq!(o.find_min(), Some((vec![1.0], 1.0)));
    let mut o = ga(vec![9.0], vec![vec![2.0], vec![3.0, 4.0, 1.5], vec![7.0]], vec![Box::new(LimitPopulation::new(1))]);
    let seen = Rc::new(RefCell::new(vec![]));
    let s = seen.clone();
    o.set_loggers(vec![Box::new(FLog(move |c, st: &dyn AlgorithmState<V>| if c == 'n' { s.borrow_mut().push(st.get_best_solution().unwrap().1) }))]);
    o.find_min();
    assert_eq!(*seen.borrow(), vec![2.0, 1.5, 1.5]);
}
'''),
 dict(id='c05-zero-fitness', property='C05', needs='a fitness of exactly zero',
  breaks='an individual with fitness 0 is killed as non-finite',
  edits=[(S, 'if !individual.get_fitness().is_finite() {', 'if !individual.get_fitness().is_normal() {')],
  demo='''
use optlib::genetic::selection::KillFitnessNaN;
fn main() {
    let n = Rc::new(RefCell::new(0));
    let m = n.clone();
    let mut o = ga(vec![1.0, 0.0, -0.0, 1e-310, f64::NAN, f64::INFINITY], vec![vec![]], vec![Box::new(KillFitnessNaN::new()), Box::new(FSel(move |p: &mut Population<V>| *m.borrow_mut() = p.len_alive()))]);
    o.find_min();
    assert_eq!(*n.borrow(), 4);
}
'''),
 dict(id='c06-infinite-interval', property='C06', needs='an unbounded interval and an infinite coordinate',
  breaks='infinite coordinates pass the filter when the interval is unbounded',
  edits=[(PB, 'if !chromo.is_finite() || *chromo', 'if chromo.is_nan() || *chromo')],
  demo='''
use optlib::genetic::pre_birth::vec_float::CheckChromoInterval;
fn main() {
    let n = Rc::new(RefCell::new(vec![]));
    let m = n.clone();
    let mut o = ga(vec![1.0], vec![vec![f64::INFINITY, 2.0, f64::NEG_INFINITY]], vec![Box::new(FSel(move |p: &mut Population<V>| *m.borrow_mut() = p.iter().map(|i| i.get_goal()).collect::<Vec<f64>>()))]);
    o.set_pre_birth(vec![Box::new(CheckChromoInterval::new(vec![(f64::NEG_INFINITY, f64::INFINITY)]))]);
    o.find_min();
    assert_eq!(*n.borrow(), vec![1.0, 2.0]);
}
'''),
 dict(id='c07-nan-interval', property='C07', needs='an interval with a NaN bound',
  breaks='the creator accepts an interval whose bounds are not ordered',
  edits=[(CR, 'assert!(interval.0 < interval.1);', 'assert!(!(interval.0 >= interval.1));')],
  demo='''
use optlib::genetic::creation::vec_float::RandomCreator;
fn main() {
    assert!(!panics(|| RandomCreator::new(1, vec![(0.0, 1.0)])));
    assert!(panics(|| RandomCreator::new(1, vec![(1.0, 1.0)])));
    assert!(panics(|| RandomCreator::new(1, vec![(0.0, f64::NAN)])));
    assert!(panics(|| RandomCreator::new(1, vec![(0.0, 1.0), (f64::NAN, 1.0)])));
}
'''),
 dict(id='c08-last-member-pair', property='C08', needs='a population of odd size',
  breaks='random pairing of an odd population returns one pair more',
  edits=[(P, 'let count = population.len() / 2;', 'let count = (population.len() as f32 / 2.0).round() as usize;')],
  demo='''
use optlib::genetic::pairing::RandomPairing;
fn main() {
    for n in 0..9usize {
        let c = Rc::new(RefCell::new(0));
        let d = c.clone();
        let mut o = ga((0..n).map(|x| x as f64).collect(), vec![vec![]], vec![]);
        let mut rp = RandomPairing::new();
        o.set_pairing(Box::new(FPairs(move |p: &Population<V>| { let r = rp.get_pairs(p); *d.borrow_mut() = r.len(); r })));
        o.find_min();
        assert_eq!(*c.borrow(), n / 2, "population of {}", n);
    }
}
'''),
 dict(id='c10-mean-many-parents', property='C10', needs='more than 255 parents',
  breaks='the mean divides by the number of parents modulo 256',
  edits=[(X, 'result = result / G::from(parents_genes.len()).unwrap();', 'result = result / G::from(parents_genes.len() as u8).unwrap();')],
  demo='''
use optlib::genetic::cross::CrossMean;
fn main() {
    for n in [2usize, 3, 100, 255, 257, 300] {
        let v: Vec<f64> = (0..n).map(|_| 3.0).collect();
        let p: Vec<&f64> = v.iter().collect();
        assert_eq!(CrossMean::new().cross(&p), vec![3.0], "{} parents", n);
    }
}
'''),
 dict(id='c12-eight-loggers', property='C12', needs='an optimizer continued after it stopped',
  breaks='loggers are not told that a continued run resumes',
  edits=[(G, 'for logger in &mut self.loggers {\n            logger.resume(&self.population);\n        }', 'if self.population.get_iteration() < 2 {\n            for logger in &mut self.loggers {\n                logger.resume(&self.population);\n            }\n        }')],
  demo='''
fn main() {
    let t = Rc::new(RefCell::new(String::new()));
    let u = t.clone();
    let mut o = ga(vec![1.0], vec![vec![2.0], vec![3.0]], vec![]);
    o.set_loggers(vec![Box::new(FLog(move |c, _: &dyn AlgorithmState<V>| u.borrow_mut().push(c)))]);
    o.find_min();
    o.set_stop_checker(Box::new(MaxIterations::new(3)));
    o.next_iterations();
    assert_eq!(*t.borrow(), "srnnfrnf");
}
'''),
 dict(id='c13-single-parent', property='C13', needs='a family of a single parent',
  breaks='families of one parent are not crossed',
  edits=[(G, 'for pair in pairs {\n            let mut cross', 'for pair in pairs {\n            if pair.len() == 1 {\n                continue;\n            }\n            let mut cross')],
  demo='''
fn main() {
    let n = Rc::new(RefCell::new(vec![]));
    let m = n.clone();
    let mut o = ga(vec![1.0, 2.0], vec![vec![5.0]], vec![]);
    o.set_pairing(Box::new(FPairs(|_: &Population<V>| vec![vec![1], vec![0, 1], vec![], vec![0, 0, 0]])));
    o.set_cross(Box::new(FCross(move |p: &[&V]| { m.borrow_mut().push(p.len()); vec![] })));
    o.find_min();
    assert_eq!(*n.borrow(), vec![1, 2, 0, 3]);
}
'''),
 dict(id='c14-tolerance', property='C14', needs='an improvement smaller than 1e-9 of the value',
  breaks='tiny improvements of the best are not recorded',
  edits=[(W, 'if compare_floats(new_best_particle.value, old_best_particle.value)\n                        == Ordering::Less', 'if compare_floats(new_best_particle.value, old_best_particle.value - f64::EPSILON)\n                        == Ordering::Less')],
  demo='''
fn main() {
    let it = Rc::new(RefCell::new(0));
    let k = it.clone();
    let mut o = ParticleSwarmOptimizer::new(Box::new(FGoal(|x: &V| x[0])), Box::new(MaxIterations::new(3)), Box::new(FInit(|| vec![vec![1e-20]])), Box::new(FInit(|| vec![vec![0.0]])), Box::new(FCalc(|_: &Swarm<f64>, p: &Particle<f64>| vec![-p.get_parameter()[0] / 2.0])));
    assert_eq!(o.find_min().unwrap().1, 1e-20 / 8.0);
}
'''),
 dict(id='c15-tolerance', property='C15', needs='an improvement smaller than the machine epsilon',
  breaks='tiny improvements of the personal best are not recorded',
  edits=[(W, 'if compare_floats(value, self.best_personal_value) == Ordering::Less {', 'if compare_floats(value, self.best_personal_value) == Ordering::Less\n            && !((self.best_personal_value - value).abs() < f64::EPSILON)\n        {')],
  demo='''
use optlib::particleswarm::velocitycalc::ClassicVelocityCalculator;
fn main() {
    // the classic calculator, with only the personal term, shows the personal best
    let mut calc = ClassicVelocityCalculator::new(1.0, 0.0);
    let n = Rc::new(RefCell::new(0));
    let m = n.clone();
    let seen = Rc::new(RefCell::new(vec![]));
    let s = seen.clone();
    let mut o = ParticleSwarmOptimizer::new(Box::new(FGoal(|x: &V| x[0] * 1e-20)), Box::new(MaxIterations::new(3)), Box::new(FInit(|| vec![vec![8.0]])), Box::new(FInit(|| vec![vec![0.0]])),
        Box::new(FCalc(move |w: &Swarm<f64>, p: &Particle<f64>| {
            let k = *m.borrow(); *m.borrow_mut() += 1;
            if k == 0 { return vec![-4.0]; }
            let v = calc.calc_new_velocity(w, p);
            if k == 1 { s.borrow_mut().push(v[0]); }
            v
        })));
    o.find_min();
    // it stands at its personal best: no pull
    assert!((seen.borrow()[0] + 4.0).abs() < 1e-12, "{:?}", seen.borrow());
}
'''),
 dict(id='c16-initial-post-move', property='C16', needs='the second iteration of a run with post-move steps',
  breaks='post-move steps are skipped for particles with zero velocity',
  edits=[(W, '                self.post_move\n                    .iter_mut()\n                    .for_each(|post_move| post_move.post_move(&mut new_coordinates));', '                if new_coordinates != self.swarm.particles[n].coordinates {\n                    self.post_move\n                        .iter_mut()\n                        .for_each(|post_move| post_move.post_move(&mut new_coordinates));\n                }')],
  demo='''
fn main() {
    let mut o = ParticleSwarmOptimizer::new(Box::new(FGoal(|x: &V| x[0])), Box::new(MaxIterations::new(2)), Box::new(FInit(|| vec![vec![8.0]])), Box::new(FInit(|| vec![vec![0.0]])), Box::new(FCalc(|_: &Swarm<f64>, _: &Particle<f64>| vec![0.0])));
    o.set_post_moves(vec![Box::new(FMove(|x: &mut V| x[0] -= 1.0))]);
    assert_eq!(o.find_min(), Some((vec![5.0], 5.0)));
}
'''),
 dict(id='c17-infinity-stays', property='C17', needs='an interval unbounded above and a coordinate of plus infinity',
  breaks='an infinite coordinate is not moved to the minimum',
  edits=[(PM, 'if !coordinates[i].is_finite() {', 'if coordinates[i].is_nan() || coordinates[i] == T::neg_infinity() {')],
  demo='''
use optlib::particleswarm::postmove::MoveToBoundary;
fn main() {
    let mut m = MoveToBoundary::new(vec![(0.0, 1.0)]);
    for (x, y) in [(2.0, 1.0), (-2.0, 0.0), (f64::NAN, 0.0), (f64::NEG_INFINITY, 0.0), (f64::INFINITY, 0.0)] {
        let mut c = vec![x];
        m.post_move(&mut c);
        assert_eq!(c, vec![y], "{}", x);
    }
}
'''),
 dict(id='c18-negative-zero-sign', property='C18', needs='a limit of zero in some dimension',
  breaks='a component is not limited when its limit is zero',
  edits=[(PV, 'if v.abs() <= *v_max {', 'if v.abs() <= *v_max || v_max.is_zero() {')],
  demo='''
use optlib::particleswarm::postvelocitycalc::MaxVelocityDimensions;
fn main() {
    let mut m = MaxVelocityDimensions::new(vec![1.0, 0.0]);
    assert_eq!(m.correct_velocity(vec![-3.0, 2.0]), vec![-1.0, 0.0]);
}
'''),
 dict(id='c19-first-iteration-weight', property='C19', needs='a schedule whose weight differs between the iterations 0 and 1',
  breaks='the inertia calculator asks for the weight of iteration 1 in iteration 0',
  edits=[(V, 'self.inertia.get(swarm.iteration);', 'self.inertia.get(swarm.iteration.max(1));')],
  demo='''
use optlib::particleswarm::velocitycalc::*;
struct Sched(Rc<RefCell<Vec<usize>>>);
impl Inertia<f64> for Sched { fn get(&mut self, i: usize) -> f64 { self.0.borrow_mut().push(i); 0.5 } }
fn main() {
    let t = Rc::new(RefCell::new(vec![]));
    let mut o = ParticleSwarmOptimizer::new(Box::new(FGoal(|x: &V| x[0])), Box::new(MaxIterations::new(3)), Box::new(FInit(|| vec![vec![8.0]])), Box::new(FInit(|| vec![vec![0.0]])), Box::new(InertiaVelocityCalculator::new(1.0, 1.0, Box::new(Sched(t.clone())))));
    o.find_min();
    assert_eq!(*t.borrow(), vec![0, 1, 2]);
}
'''),
 dict(id='c19-worst-personal-best', property='C19', needs='negative reinforcement with a personal worst that is no longer the current position',
  breaks='the personal repulsion uses the current worst particle when the particle itself is the worst ever',
  edits=[(V, '* (particle.worst_personal_coordinates[i] - particle.coordinates[i]);', '* (if particle.worst_personal_value >= global_worst_particle.value { current_worst_solution[i] } else { particle.worst_personal_coordinates[i] } - particle.coordinates[i]);')],
  demo='''
use optlib::particleswarm::velocitycalc::*;
fn main() {
    let mut calc = NegativeReinforcement::new(0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0);
    let n = Rc::new(RefCell::new(0));
    let m = n.clone();
    let seen = Rc::new(RefCell::new(vec![]));
    let s = seen.clone();
    let mut o = ParticleSwarmOptimizer::new(Box::new(FGoal(|x: &V| x[0])), Box::new(MaxIterations::new(2)), Box::new(FInit(|| vec![vec![8.0]])), Box::new(FInit(|| vec![vec![0.0]])),
        Box::new(FCalc(move |w: &Swarm<f64>, p: &Particle<f64>| {
            let k = *m.borrow(); *m.borrow_mut() += 1;
            if k == 0 { return vec![-4.0]; }
            // velocity - r * (8 - 4), over many draws
            for _ in 0..50 { s.borrow_mut().push(calc.calc_new_velocity(w, p)[0]); }
            vec![0.0]
        })));
    o.find_min();
    assert!(seen.borrow().iter().any(|v| *v < -4.5), "never repelled: {:?}", seen.borrow());
}
'''),
 dict(id='c20-sorted-weights', property='C20', needs='a schedule that increases (w_min above w_max)',
  breaks='linear inertia orders its weights',
  edits=[(V, '        Self {\n            w_min,\n            w_max,\n            t_max,\n        }', '        let (w_min, w_max) = if w_min > w_max { (w_max, w_min) } else { (w_min, w_max) };\n        Self {\n            w_min,\n            w_max,\n            t_max,\n        }')],
  demo='''
use optlib::particleswarm::velocitycalc::*;
fn main() {
    let mut l = LinearInertia::new(0.75, 0.25, 4);
    assert_eq!((l.get(0), l.get(2), l.get(4)), (0.25, 0.5, 0.75));
}
'''),
 dict(id='c21-velocity-surplus', property='C21', needs='more velocities than coordinates',
  breaks='surplus velocities are accepted',
  edits=[(W, 'assert!(coordinates.len() == velocity.len());', 'assert!(coordinates.len() <= velocity.len());')],
  demo='''
fn main() {
    for (a, b) in [(0usize, 0usize), (1, 1), (2, 1), (1, 2), (0, 1)] {
        let r = panics(|| {
            let mut o = ParticleSwarmOptimizer::new(Box::new(FGoal(|x: &V| x[0])), Box::new(MaxIterations::new(0)), Box::new(FInit(move || vec![vec![8.0]; a])), Box::new(FInit(move || vec![vec![0.0]; b])), Box::new(FCalc(|_: &Swarm<f64>, _: &Particle<f64>| vec![0.0])));
            o.find_min();
        });
        assert_eq!(r, a != b, "{} {}", a, b);
    }
}
'''),
 dict(id='c22-near-threshold', property='C22', needs='a goal above the threshold by less than the machine epsilon',
  breaks='the threshold checker stops above the threshold',
  edits=[(K, 'Some((_, goal)) => goal <= self.threshold,', 'Some((_, goal)) => goal - self.threshold < f64::EPSILON,')],
  demo='''
fn main() {
    let mut t = Threshold::new(0.0);
    for (g, r) in [(0.0, true), (-1.0, true), (1.0, false), (1e-20, false), (f64::NAN, false)] {
        assert_eq!(t.can_stop(&Fake { it: 0, best: Some((vec![], g)) }), r, "{}", g);
    }
}
'''),
 dict(id='c23-relative-first', property='C23', needs='a first best goal equal to the largest float',
  breaks='the remembered goal starts at zero, so a first goal of about zero is not a change',
  edits=[(K, 'old_goal: f64::MAX,', 'old_goal: 0.0,')],
  demo='''
fn main() {
    let mut t = GoalNotChange::new(3, 0.5);
    // the first solution appears at iteration 10: it is a change
    assert!(!t.can_stop(&Fake { it: 0, best: None }));
    assert!(!t.can_stop(&Fake { it: 10, best: Some((vec![], 0.25)) }));
    assert!(!t.can_stop(&Fake { it: 13, best: Some((vec![], 0.25)) }));
    assert!(t.can_stop(&Fake { it: 14, best: Some((vec![], 0.25)) }));
}
'''),
 dict(id='c24-nan-result-dropped', property='C24', needs='a run whose best goal is NaN',
  breaks='a run that ends with a NaN goal is recorded as a run without a solution',
  edits=[(T, 'self.results.push(state.get_best_solution().clone());', 'self.results.push(state.get_best_solution().filter(|(_, goal)| !goal.is_nan()));')],
  demo='''
fn main() {
    let mut st: Statistics<V> = Statistics::new();
    {
        let mut l = StatisticsLogger::new(&mut st);
        l.start(&Fake { it: 0, best: None });
        l.finish(&Fake { it: 0, best: None });
        l.start(&Fake { it: 0, best: None });
        l.finish(&Fake { it: 0, best: Some((vec![1.0], f64::NAN)) });
    }
    assert!(st.get_results()[0].is_none());
    assert!(st.get_results()[1].as_ref().unwrap().1.is_nan());
}
'''),
 dict(id='c26-rate-of-solved', property='C26', needs='runs without a solution',
  breaks='the success rate is over the runs that have a solution',
  edits=[(T, '''        let count = self.len();
        match count {
            0 => None,''', '''        let count = self.iter().filter(|x| x.is_some()).count();
        match self.len() {
            0 => None,''')],
  demo='''
fn main() {
    let r: Vec<Option<(V, f64)>> = vec![Some((vec![0.0], 1.0)), None, None, Some((vec![0.0], 3.0))];
    assert_eq!(r.get_success_rate(|s| s.1 < 2.0), Some(0.25));
}
'''),
 dict(id='c27-empty-run-reused', property='C27', needs='two runs begun one after the other without a call',
  breaks='beginning a run after a run without calls does not append a count',
  edits=[(T, '''    pub fn next_run(&mut self) {
        self.0.push(0);''', '''    pub fn next_run(&mut self) {
        if self.0.last() == Some(&0) {
            return;
        }
        self.0.push(0);''')],
  demo='''
fn main() {
    let mut c = CallCountData::new();
    c.next_run(); c.increment(); c.next_run(); c.next_run(); c.add(2);
    assert_eq!(c.get_call_count(), vec![1, 0, 2]);
}
'''),
 dict(id='c28-clone-worst', property='C28', needs='a clone of a particle that is no longer at its worst position',
  breaks='the clone of a particle takes its current value as worst personal value',
  edits=[(W, 'particle.worst_personal_value = self.worst_personal_value;', 'particle.worst_personal_value = self.worst_personal_value.min(self.value);')],
  demo='''
fn main() {
    // a clone that moves to a position better than the true worst must not replace the worst record;
    // the records of a particle are visible only through the text of the calculators, so use Debug-free access:
    use optlib::particleswarm::velocitycalc::*;
    let mut calc = NegativeReinforcement::new(0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0);
    let _ = &mut calc;
    let src = std::fs::read_to_string("optlib/src/particleswarm/mod.rs").unwrap();
    let _ = src;
}
'''),
 dict(id='c28-alive-of-dead', property='C28', needs='a population some of whose members were killed',
  breaks='the length of a population does not count the dead members',
  edits=[(G, '''    pub fn len(&self) -> usize {
        self.individuals.len()
    }''', '''    pub fn len(&self) -> usize {
        if self.individuals.len() > 64 {
            self.len_alive()
        } else {
            self.individuals.len()
        }
    }''')],
  demo='''
fn main() {
    for n in [1usize, 2, 5, 64, 65, 100] {
        let c = Rc::new(RefCell::new(vec![]));
        let d = c.clone();
        let mut o = ga((0..n).map(|x| x as f64).collect(), vec![vec![]], vec![Box::new(FSel(move |p: &mut Population<V>| { p[0].kill(); d.borrow_mut().push((p.len(), p.len_alive(), p.iter().count())); }))]);
        o.find_min();
        assert_eq!(*c.borrow(), vec![(n, n - 1, n)]);
    }
}
'''),
 dict(id='c01-close-fitness', property='C01', needs='a best individual with a fitness of negative zero or tiny magnitude',
  breaks='the returned goal value is rounded to zero when it is tiny',
  edits=[(G, '''            logger.finish(&self.population);
        }

        match &self.population.best_individual {
            None => None,
            Some(individual) => Some((individual.chromosomes.clone(), individual.fitness)),''', '''            logger.finish(&self.population);
        }

        match &self.population.best_individual {
            None => None,
            Some(individual) if individual.fitness.abs() < f64::EPSILON => {
                Some((individual.chromosomes.clone(), 0.0))
            }
            Some(individual) => Some((individual.chromosomes.clone(), individual.fitness)),''')],
  demo='''
fn main() {
    let mut o = ga(vec![1e-20, 2.0], vec![vec![3.0]], vec![]);
    assert_eq!(o.find_min(), Some((vec![1e-20], 1e-20)));
}
'''),
 dict(id='c02-empty-forgets', property='C02', needs='a generation in which every individual dies',
  breaks='the best of an extinct population is forgotten',
  edits=[(G, 'self.population.remove_dead();\n\n            self.population.update_best_worst_individuals();', 'self.population.remove_dead();\n            if self.population.len() == 0 {\n                self.population.best_individual = None;\n            }\n\n            self.population.update_best_worst_individuals();')],
  demo='''
fn main() {
    let mut o = ga(vec![1.0, 2.0], vec![vec![3.0], vec![]], vec![Box::new(FSel(|p: &mut Population<V>| if p.get_iteration() == 1 { for i in p.iter_mut() { i.kill() } }))]);
    assert_eq!(o.find_min(), Some((vec![1.0], 1.0)));
}
'''),
]
BUGS = [b for b in BUGS if b['id'] != 'c28-clone-worst']
