G = 'optlib/src/genetic/mod.rs'
S = 'optlib/src/genetic/selection/mod.rs'
SV = 'optlib/src/genetic/selection/vec_float.rs'
PV = 'optlib/src/genetic/pre_birth/vec_float.rs'
X = 'optlib/src/genetic/cross/mod.rs'
M = 'optlib/src/genetic/mutation/mod.rs'
A = 'optlib/src/genetic/pairing/mod.rs'
P = 'optlib/src/particleswarm/mod.rs'
PI = 'optlib/src/particleswarm/initializing/mod.rs'
PP = 'optlib/src/particleswarm/postmove/mod.rs'
PC = 'optlib/src/particleswarm/postvelocitycalc/mod.rs'
VC = 'optlib/src/particleswarm/velocitycalc/mod.rs'
C = 'optlib/src/tools/stopchecker/mod.rs'
T = 'optlib/src/tools/statistics/mod.rs'
L = 'optlib/src/tools/logging/mod.rs'
K = 'optlib/src/tools/mod.rs'
F = 'optlib-testfunc/src/lib.rs'
BUGS = [
 dict(id='c03-sorted-nan', property='C03', needs='NaN among the fitness values of a population over its limit',
  breaks='truncation sorts with partial_cmp, so NaN individuals count as equal to everything and better ones are killed',
  edits=[(S, '''    // List of indexes of individuals in population to be kill
    let mut kill_list''', '''    let mut order: Vec<usize> = (0..population.len())
        .filter(|n| population[*n].is_alive())
        .collect();
    order.sort_by(|a, b| {
        population[*b]
            .get_fitness()
            .partial_cmp(&population[*a].get_fitness())
            .unwrap_or(std::cmp::Ordering::Equal)
    });
    if order.len() <= 4096 {
        for n in order.into_iter().take(count) {
            population[n].kill();
        }
        return;
    }

    // List of indexes of individuals in population to be kill
    let mut kill_list''')],
  demo='''
use optlib::genetic::selection::LimitPopulation;
fn main() {
    for v in [vec![1.0, f64::NAN, 3.0, 2.0], vec![f64::NAN, 1.0, 2.0, 0.5], vec![2.0, 1.0, f64::NAN], vec![5.0, f64::NAN, 7.0, f64::NAN, 6.0]] {
        let nums = v.iter().filter(|x| !x.is_nan()).count();
        let n = Rc::new(RefCell::new(vec![]));
        let m = n.clone();
        let mut o = ga(v.clone(), vec![vec![]], vec![Box::new(LimitPopulation::new(nums)), Box::new(FSel(move |p: &mut Population<V>| *m.borrow_mut() = p.iter().filter(|i| i.is_alive()).map(|i| i.get_goal()).collect::<Vec<f64>>()))]);
        o.find_min();
        assert_eq!(n.borrow().len(), nums);
        assert!(n.borrow().iter().all(|x| !x.is_nan()), "{:?} -> {:?}", v, n.borrow());
    }
}
'''),
 dict(id='c13-families-of-two', property='C13', needs='a pairing that returns families of another size than two',
  breaks='the families are flattened and cut into pairs again, so larger families are crossed in the wrong composition',
  edits=[(G, '''            let mut child_chromosomes = self.cross.cross(&cross_chromosomes);
            new_chromosomes.append(&mut child_chromosomes);''', '''            for family in cross_chromosomes.chunks(if cross_chromosomes.len() % 2 == 0 { 2 } else { cross_chromosomes.len() }) {
                let mut child_chromosomes = self.cross.cross(family);
                new_chromosomes.append(&mut child_chromosomes);
            }''')],
  demo='''
fn main() {
    let seen = Rc::new(RefCell::new(vec![]));
    let s2 = seen.clone();
    let mut o = GeneticOptimizer::new(
        Box::new(FGoal(|x: &V| x[0])), Box::new(MaxIterations::new(1)),
        Box::new(FCreator(|| vec![vec![1.0], vec![2.0], vec![3.0], vec![4.0], vec![5.0]])),
        Box::new(FPairs(|_: &Population<V>| vec![vec![0, 1], vec![0, 1, 2], vec![1, 2, 3, 4]])),
        Box::new(FCross(move |p: &[&V]| { s2.borrow_mut().push(p.iter().map(|x| x[0]).collect::<Vec<f64>>()); vec![] })),
        Box::new(FMut(|x: &V| x.clone())), vec![], vec![]);
    o.find_min();
    assert_eq!(*seen.borrow(), vec![vec![1.0, 2.0], vec![1.0, 2.0, 3.0], vec![2.0, 3.0, 4.0, 5.0]]);
}
'''),
 dict(id='c05-half-open', property='C05', needs='a chromosome exactly at the maximum of its interval',
  breaks='the interval selection treats the upper end point as outside',
  edits=[(SV, 'if !chromo.is_finite() || *chromo < interval.0 || *chromo > interval.1 {', 'if !chromo.is_finite() || !(interval.0..interval.1).contains(chromo) {')],
  demo='''
use optlib::genetic::selection::vec_float::CheckChromoInterval;
fn main() {
    let mut o = ga(vec![1.0, 2.0, 0.5, 2.5], vec![vec![]], vec![Box::new(CheckChromoInterval::new(vec![(1.0, 2.0)]))]);
    let n = Rc::new(RefCell::new(0));
    let m = n.clone();
    o.set_selection(vec![Box::new(CheckChromoInterval::new(vec![(1.0, 2.0)])), Box::new(FSel(move |p: &mut Population<V>| *m.borrow_mut() = p.len_alive()))]);
    o.find_min();
    assert_eq!(*n.borrow(), 2);
}
'''),
 dict(id='c06-adjacent-twins', property='C06', needs='two consecutive equal offspring',
  breaks='the pre-birth filter also drops an offspring equal to its predecessor',
  edits=[(PV, 'new_chromosomes.retain(|chromosomes| self.check_chromo(chromosomes));', 'new_chromosomes.retain(|chromosomes| self.check_chromo(chromosomes));\n        new_chromosomes.dedup();')],
  demo='''
use optlib::genetic::pre_birth::vec_float::CheckChromoInterval;
fn main() {
    let mut o = ga(vec![0.5], vec![vec![0.25, 0.25, 3.0, 0.25, 0.75]], vec![]);
    let n = Rc::new(RefCell::new(0));
    let m = n.clone();
    o.set_pre_birth(vec![Box::new(CheckChromoInterval::new(vec![(0.0, 1.0)])), Box::new(FPre(move |_: &Population<V>, c: &mut Vec<V>| *m.borrow_mut() = c.len()))]);
    o.find_min();
    assert_eq!(*n.borrow(), 4);
}
'''),
 dict(id='c24-unchanged-best', property='C24', needs='an iteration that does not change the best solution, in a row of at least two entries',
  breaks='an iteration whose best value equals the two before it is not recorded',
  edits=[(T, '        self.convergence[run_index].push(state.get_best_solution().clone());', '''        let row = &mut self.convergence[run_index];
        let goal = |s: &Option<Solution<T>>| s.as_ref().map(|x| x.1);
        let next = state.get_best_solution();
        let same = row.windows(3).last().map_or(false, |w| {
            w.iter().all(|s| s.is_some() && goal(s) == goal(&next))
        });
        if !same {
            row.push(next);
        }''')],
  demo='''
fn main() {
    let mut st: Statistics<V> = Statistics::new();
    { let mut l = StatisticsLogger::new(&mut st);
      let l: &mut dyn Logger<V> = &mut l;
      let f = |i| Fake { it: i, best: Some((vec![1.0], 2.0)) };
      l.start(&f(0)); l.resume(&f(0));
      for i in 1..9 { l.next_iteration(&f(i)); }
      l.finish(&f(8)); }
    assert_eq!(st.get_convergence()[0].len(), 8);
}
'''),
 dict(id='c14-second-run', property='C14', needs='a second find_min on one optimiser whose first run was better',
  breaks='the best particle of an earlier run survives a restart',
  edits=[(P, '        self.particles.clear();\n        self.best_particle = None;\n', '        self.particles.clear();\n'),
         (P, '        self.best_particle = Self::find_best_particle(&self.particles);\n        self.worst', '''        let found = Self::find_best_particle(&self.particles);
        match (&found, &self.best_particle) {
            (Some(new), Some(old)) if compare_floats(old.value, new.value) == Ordering::Less => {}
            _ => self.best_particle = found,
        }
        self.worst''')],
  demo='''
fn main() {
    let k = Rc::new(RefCell::new(0.0));
    let k2 = k.clone();
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(FGoal(|x: &V| x[0])), Box::new(MaxIterations::new(1)),
        Box::new(FInit(move || { *k2.borrow_mut() += 1.0; vec![vec![*k2.borrow()], vec![*k2.borrow() + 5.0]] })),
        Box::new(FInit(|| vec![vec![0.0], vec![0.0]])),
        Box::new(FCalc(|_: &Swarm<f64>, _: &Particle<f64>| vec![0.0])));
    assert_eq!(o.find_min(), Some((vec![1.0], 1.0)));
    assert_eq!(o.find_min(), Some((vec![2.0], 2.0)));
}
'''),
 dict(id='c21-silent-finish', property='C21', needs='a stop checker that stops before the first iteration',
  breaks='loggers do not hear finish when the run had no iteration',
  edits=[(P, '''        for logger in &mut self.loggers {
            logger.finish(&self.swarm);
        }''', '''        let done = self.swarm.iteration;
        for logger in self.loggers.iter_mut().take_while(|_| done > 0) {
            logger.finish(&self.swarm);
        }''')],
  demo='''
fn main() {
    let h = Rc::new(RefCell::new(String::new()));
    let h2 = h.clone();
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(FGoal(|x: &V| x[0])), Box::new(MaxIterations::new(0)),
        Box::new(FInit(|| vec![vec![1.0]])), Box::new(FInit(|| vec![vec![0.0]])),
        Box::new(FCalc(|_: &Swarm<f64>, _: &Particle<f64>| vec![0.0])));
    o.set_loggers(vec![Box::new(FLog(move |c, _: &dyn AlgorithmState<V>| h2.borrow_mut().push(c)))]);
    o.find_min();
    assert_eq!(*h.borrow(), "srf");
}
'''),
 dict(id='c12-asked-twice', property='C12', needs='a stop checker whose answer depends on how often it is asked',
  breaks='the stop checker is asked twice before the first generation of a continuation',
  edits=[(G, '''        while !self.stop_checker.can_stop(&self.population) {
            // Pairing''', '''        let continued = self.population.get_iteration() != 0;
        if continued && self.stop_checker.can_stop(&self.population) {
            for logger in &mut self.loggers {
                logger.finish(&self.population);
            }
            return self.population.get_best_solution();
        }

        while !self.stop_checker.can_stop(&self.population) {
            // Pairing''')],
  demo='''
fn main() {
    let mut o = ga(vec![1.0], vec![vec![]], vec![]);
    let n = Rc::new(RefCell::new(0));
    let m = n.clone();
    o.set_stop_checker(Box::new(FStop(move |_: &dyn AlgorithmState<V>| { *m.borrow_mut() += 1; *m.borrow() % 3 == 0 })));
    o.find_min();
    assert_eq!(*n.borrow(), 3);
    o.next_iterations();
    assert_eq!(*n.borrow(), 6);
    let g = Rc::new(RefCell::new(0));
    let h = g.clone();
    o.set_loggers(vec![Box::new(FLog(move |c, _: &dyn AlgorithmState<V>| if c == 'n' { *h.borrow_mut() += 1 }))]);
    o.next_iterations();
    assert_eq!(*g.borrow(), 2);
}
'''),
 dict(id='c08-last-never-challenges', property='C08', needs='tournaments in which the last member would have to challenge',
  breaks='the last member of the population is never drawn as a challenger',
  edits=[(A, 'let challenger = between.sample(&mut self.random);', 'let challenger = between.sample(&mut self.random) % (population.len() - 1).max(1);')],
  demo='''
use optlib::genetic::pairing::Tournament;
fn main() {
    // the last member is the best: with many rounds it wins nearly every tournament
    let won = Rc::new(RefCell::new(0));
    let w2 = won.clone();
    let t = Rc::new(RefCell::new(Tournament::new(200).rounds_count(60)));
    let mut o = ga(vec![3.0, 2.0, 4.0, 1.0], vec![vec![]], vec![]);
    o.set_pairing(Box::new(FPairs(move |p: &Population<V>| { *w2.borrow_mut() = t.borrow_mut().get_pairs(p).iter().flatten().filter(|i| **i == 3).count(); vec![] })));
    o.find_min();
    assert!(*won.borrow() > 350, "{}", won.borrow());
}
'''),
 dict(id='c10-mantissa-width', property='C10', needs='mantissa positions above 52',
  breaks='the exponent/mantissa crossing never crosses in the upper part of the mantissa word',
  edits=[(X, 'let mantissa_between = Uniform::new(1, mantissa_size);', 'let mantissa_between = Uniform::new(1, mantissa_size - 11);')],
  demo='''
use optlib::genetic::cross::FloatCrossExp;
fn main() {
    // the child of 0 and 1 has a mantissa other than zero only for positions above 52
    let (a, b) = (0.0f64, 1.0f64);
    let mut c = FloatCrossExp::new();
    let mut all = 0;
    for _ in 0..4000 { let x: Vec<f64> = c.cross(&[&a, &b]); if x[0] != 0.0 { all += 1; } }
    assert!(all > 0);
}
'''),
 dict(id='c11-percent-floor', property='C11', needs='a probability below one percent',
  breaks='vector mutation uses at least one percent, so probability 0 mutates now and then',
  edits=[(M, 'if mutate.sample(&mut self.random) < self.probability {', 'if mutate.sample(&mut self.random) < self.probability.max(1.0) {')],
  demo='''
use optlib::genetic::mutation::VecMutation;
struct N;
impl Mutation<f64> for N { fn mutation(&mut self, x: &f64) -> f64 { x + 1.0 } }
fn main() {
    let mut m = VecMutation::new(0.0, Box::new(N));
    let v = vec![0.0; 20000];
    assert_eq!(m.mutation(&v), v);
}
'''),
 dict(id='c18-one-dimension', property='C18', needs='a one-dimensional velocity below minus the limit',
  breaks='the magnitude limiter loses the sign of one-dimensional velocities',
  edits=[(PC, '        if current_velocity_abs > self.max_velocity {\n', '''        if velocity.len() == 1 {
            return velocity
                .into_iter()
                .map(|vi| if current_velocity_abs > self.max_velocity { self.max_velocity } else { vi })
                .collect();
        }

        if current_velocity_abs > self.max_velocity {
''')],
  demo='''
use optlib::particleswarm::postvelocitycalc::MaxVelocityAbs;
fn main() {
    let mut m = MaxVelocityAbs::new(2.0);
    assert_eq!(m.correct_velocity(vec![-5.0]), vec![-2.0]);
}
'''),
 dict(id='c19-own-best', property='C19', needs='negative reinforcement for the particle that is currently the best',
  breaks='the currently best particle is attracted to the best ever position instead of itself',
  edits=[(VC, '        let current_best_solution = current_best_particle.coordinates;', '''        let current_best_solution = if current_best_particle.value == particle.value {
            global_best_particle.coordinates.clone()
        } else {
            current_best_particle.coordinates
        };''')],
  demo='''
use optlib::particleswarm::velocitycalc::NegativeReinforcement;
fn main() {
    // one particle: it is always the current best, so the pull to the current best is zero
    let out = Rc::new(RefCell::new(vec![]));
    let o2 = out.clone();
    let nr = RefCell::new(NegativeReinforcement::new(0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0));
    let step = RefCell::new(0.0);
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(FGoal(|x: &V| x[0])), Box::new(MaxIterations::new(3)),
        Box::new(FInit(|| vec![vec![1.0]])), Box::new(FInit(|| vec![vec![0.0]])),
        Box::new(FCalc(move |s: &Swarm<f64>, p: &Particle<f64>| {
            let v = nr.borrow_mut().calc_new_velocity(s, p);
            o2.borrow_mut().push(v[0]);
            *step.borrow_mut() += 1.0;
            vec![1.0] })));
    o.find_min();
    // velocity after the first step is 1, so the formula gives 0, 1, 1
    assert_eq!(*out.borrow(), vec![0.0, 1.0, 1.0]);
}
'''),
 dict(id='c20-last-step-missing', property='C20', needs='asking for the weight of the final iteration',
  breaks='the linear inertia leaves the last iteration at the value of the one before',
  edits=[(VC, '            - (self.w_max - self.w_min) * T::from(iteration).unwrap() / T::from(self.t_max).unwrap()', '            - (self.w_max - self.w_min) * T::from((1..self.t_max).take(iteration).count()).unwrap()\n                / T::from(self.t_max).unwrap()')],
  demo='''
use optlib::particleswarm::velocitycalc::{Inertia, LinearInertia};
fn main() {
    for t in 1..20usize {
        let mut l = LinearInertia::new(0.5, 0.75, t);
        assert!((l.get(t) - 0.5f64).abs() < 1e-9, "{}", t);
        assert!((l.get(0) - 0.75f64).abs() < 1e-9);
    }
}
'''),
 dict(id='c27-narrow-add', property='C27', needs='adding more than a 32-bit number of calls',
  breaks='adding a count keeps only its low 32 bits',
  edits=[(T, '        self.0[index] += n;', '        self.0[index] += n as u32 as usize;')],
  demo='''
fn main() {
    let mut c = CallCountData::new();
    c.add(5_000_000_000);
    c.increment();
    assert_eq!(c.get_call_count(), vec![5_000_000_001]);
}
'''),
 dict(id='c07-half-ends', property='C07', needs='an interval narrower than the spacing of single precision',
  breaks='the ends of the coordinate intervals are rounded to single precision',
  edits=[(PI, '''impl<T: NumCast + PartialOrd> CoordinatesInitializer<T> for RandomCoordinatesInitializer<T> {
    fn get_coordinates(&mut self) -> Vec<Vec<T>> {
        (0..self.particles_count)
            .map(|_| self.vector_creator.create_vec(&self.intervals))
            .collect()''', '''impl<T: NumCast + PartialOrd> CoordinatesInitializer<T> for RandomCoordinatesInitializer<T> {
    fn get_coordinates(&mut self) -> Vec<Vec<T>> {
        // 32-bit precision is enough for a starting point
        let half = |x: &T| T::from(x.to_f32().unwrap()).unwrap();
        let intervals: Vec<(T, T)> = self.intervals.iter().map(|i| (half(&i.0), half(&i.1))).collect();
        (0..self.particles_count)
            .map(|_| self.vector_creator.create_vec(&intervals))
            .collect()''')],
  demo='''
use optlib::particleswarm::initializing::RandomCoordinatesInitializer;
fn main() {
    let (a, b) = (0.1f64, 0.1f64 + 1e-9);
    let mut c = RandomCoordinatesInitializer::new(vec![(a, b)], 20);
    assert!(!panics(|| { let r: Vec<V> = c.get_coordinates(); for x in r { assert!(a <= x[0] && x[0] <= b); } }));
}
'''),
 dict(id='c02-all-infinite', property='C02', needs='a generation all of whose members have infinite goals, after a finite one',
  breaks='the best of an all-infinite generation is the stale best of an earlier one',
  edits=[(G, '''            .iter()
            .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2));''', '''            .iter()
            .filter(|individual| individual.fitness < f64::INFINITY)
            .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2));''')],
  demo='''
fn main() {
    let mut o = ga(vec![1.0], vec![vec![f64::INFINITY]], vec![Box::new(FSel(|p: &mut Population<V>| p[0].kill()))]);
    assert_eq!(o.find_min(), Some((vec![f64::INFINITY], f64::INFINITY)));
}
'''),
 dict(id='c16-infinite-velocity', property='C16', needs='a velocity component that is not finite',
  breaks='a particle does not move along a dimension whose velocity is not finite',
  edits=[(P, '.map(|(coord, velocity)| *coord + *velocity)', '.map(|(coord, velocity)| if velocity.is_finite() { *coord + *velocity } else { *coord })')],
  demo='''
fn main() {
    let seen = Rc::new(RefCell::new(vec![]));
    let s2 = seen.clone();
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(FGoal(move |x: &V| { s2.borrow_mut().push(x[0]); x[0] })), Box::new(MaxIterations::new(1)),
        Box::new(FInit(|| vec![vec![1.0]])), Box::new(FInit(|| vec![vec![0.0]])),
        Box::new(FCalc(|_: &Swarm<f64>, _: &Particle<f64>| vec![f64::INFINITY])));
    o.find_min();
    assert_eq!(*seen.borrow(), vec![1.0, f64::INFINITY]);
}
'''),
 dict(id='c29-precision-capped', property='C29', needs='a precision above fifteen digits',
  breaks='the result logger prints at most fifteen digits of the solution',
  edits=[(L, 'result = result + &format!("  {:.*}\\n", self.precision, x);', 'result = result + &format!("  {:.*}\\n", self.precision.min(15), x);')],
  demo='''
use optlib::tools::logging::ResultOnlyLogger;
fn main() {
    let mut out = vec![];
    { let mut l = ResultOnlyLogger::new(&mut out, 18); let l: &mut dyn Logger<V> = &mut l; l.finish( &Fake { it: 3, best: Some((vec![0.1], 0.5)) }); }
    let s = String::from_utf8(out).unwrap();
    assert!(s.contains(&format!("{:.18}", 0.1f64)), "{}", s);
}
'''),
 dict(id='c22-all-infinite-goal', property='C22', needs='an all-composite asked while the best goal is not finite',
  breaks='the all-composite stops against a refusing member when the best goal is not finite',
  edits=[(C, '            if !checker.can_stop(state) {\n                return false;', '            let rest = checker.can_stop(state);\n            if !rest && state.get_best_solution().map_or(true, |s| s.1.is_finite()) {\n                return false;')],
  demo='''
fn main() {
    let mut c: CompositeAll<V> = CompositeAll::new(vec![Box::new(MaxIterations::new(5)), Box::new(MaxIterations::new(1))]);
    let s = Fake { it: 2, best: Some((vec![1.0], f64::INFINITY)) };
    let c: &mut dyn StopChecker<V> = &mut c;
    assert!(!c.can_stop(&s));
}
'''),
 dict(id='c26-repeated-goals', property='C26', needs='more than eight successes in a row with the same goal',
  breaks='the success rate leaves out successes that repeat the goal of the previous one',
  edits=[(T, '''                    .filter(|solution| predicate(solution));
                Some(success_solutions.count() as f64 / (count as f64))''', '''                    .filter(|solution| predicate(solution));
                let mut goals: Vec<GoalValue> = success_solutions.map(|s| s.1).collect();
                let found = goals.len();
                goals.dedup();
                let repeated = found - goals.len();
                Some((found - if repeated > 8 { repeated } else { 0 }) as f64 / (count as f64))''')],
  demo='''
fn main() {
    let v: Vec<Option<(V, f64)>> = (0..12).map(|_| Some((vec![0.0], 1.0))).collect();
    assert_eq!(v.get_success_rate(|s| s.1 < 2.0), Some(1.0));
}
'''),
 dict(id='c25-vanished-best', property='C25', needs='a convergence row whose solution vanishes at a later iteration, in the first iteration of several',
  breaks='the divisor of the convergence average counts a run that had a solution one iteration before',
  edits=[(T, '''                if let Some(solution) = &self[run][i] {
                    sum += solution.1;
                    sum_count += 1;
                }''', '''                if let Some(solution) = &self[run][i] {
                    sum += solution.1;
                }
                if self[run][i].is_some() || (i > 1 && self[run][i - 1].is_some()) {
                    sum_count += 1;
                }''')],
  demo='''
fn main() {
    let c: Vec<Vec<Option<(V, f64)>>> = vec![
        vec![None, Some((vec![], 1.0)), None], vec![None, Some((vec![], 3.0)), Some((vec![], 2.0))]];
    assert_eq!(c.get_average_convergence(), vec![None, Some(2.0), Some(2.0)]);
}
'''),
 dict(id='c28-dead-head', property='C28', needs='the mutable iterator of a population whose first members are dead',
  breaks='the mutable iterator skips the dead members at the front',
  edits=[(G, '''    pub fn iter_mut(&mut self) -> slice::IterMut<Individual<T>> {
        self.individuals.iter_mut()''', '''    pub fn iter_mut(&mut self) -> slice::IterMut<Individual<T>> {
        let dead = self.individuals.iter().take_while(|i| !i.alive).count();
        self.individuals[dead..].iter_mut()''')],
  demo='''
fn main() {
    let n = Rc::new(RefCell::new(0));
    let m = n.clone();
    let mut o = ga(vec![1.0, 2.0, 3.0], vec![vec![]], vec![Box::new(FSel(move |p: &mut Population<V>| { p[0].kill(); *m.borrow_mut() = p.iter_mut().count(); }))]);
    o.find_min();
    assert_eq!(*n.borrow(), 3);
}
'''),
 dict(id='c17-late-interval', property='C17', needs='a teleport in more than twelve dimensions',
  breaks='dimensions beyond the twelfth are drawn from the interval of the one before',
  edits=[(PP, 'coordinates[i] = self.random_intervals[i].sample(&mut self.random);', 'coordinates[i] = self.random_intervals[if i < 12 { i } else { i - 1 }].sample(&mut self.random);')],
  demo='''
use optlib::particleswarm::postmove::RandomTeleport;
fn main() {
    let iv: Vec<(f64, f64)> = (0..20).map(|i| (i as f64, i as f64 + 0.5)).collect();
    let mut t = RandomTeleport::new(iv.clone(), 1.0);
    let mut x = vec![-1.0; 20];
    t.post_move(&mut x);
    for (a, b) in x.iter().zip(iv.iter()) { assert!(b.0 <= *a && *a <= b.1, "{:?}", x); }
}
'''),
 dict(id='c15-far-positions', property='C15', needs='an improvement by less than the spacing of single precision',
  breaks='personal records compare values in single precision',
  edits=[(P, 'if compare_floats(value, self.best_personal_value) == Ordering::Less {', 'if compare_floats(value as f32 as f64, self.best_personal_value as f32 as f64) == Ordering::Less {')],
  demo='''
use optlib::particleswarm::velocitycalc::ClassicVelocityCalculator;
fn main() {
    // a second particle holds the global best, the pull is to the personal best only
    let ok = Rc::new(RefCell::new(true));
    let k2 = ok.clone();
    let cl = RefCell::new(ClassicVelocityCalculator::new(1.0, 0.0));
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(FGoal(|x: &V| 1.0 - x[0] * 1e-12)), Box::new(MaxIterations::new(4)),
        Box::new(FInit(|| vec![vec![0.0]])), Box::new(FInit(|| vec![vec![0.0]])),
        Box::new(FCalc(move |s: &Swarm<f64>, p: &Particle<f64>| {
            // the personal best is where it stands: the pull is zero, the velocity stays
            let v = cl.borrow_mut().calc_new_velocity(s, p);
            if s.get_iteration() > 0 && v[0] != 1.0 { *k2.borrow_mut() = false; }
            vec![1.0] })));
    o.find_min();
    assert!(*ok.borrow());
}
'''),
 dict(id='c30-large-arguments', property='C30', needs='coordinates of large magnitude',
  breaks='schwefel computes the root in a way that loses points of large magnitude',
  edits=[(F, 'acc + xi * xi.abs().sqrt().sin()', 'acc + xi * xi.abs().min(G::from(500.0).unwrap()).sqrt().sin()')],
  demo='''
use optlib_testfunc::schwefel;
fn main() {
    for x in [1.0f64, 420.0, -500.0, 512.0, -1000.0] {
        let want = 418.9829 - x * x.abs().sqrt().sin();
        assert!((schwefel(&vec![x]) - want).abs() < 1e-6, "{}", x);
    }
}
'''),
 dict(id='c09-shift-by-parts', property='C09', needs='crossing 64-bit numbers above position 31',
  breaks='the mask of the second parent is built from a 32-bit shift',
  edits=[(X, 'let mask_parent_2 = !0u64 >> (size - pos);\n', 'let mask_parent_2 = if pos == 32 { !0u32 as u64 >> 1 } else { !0u64 >> (size - pos) };\n')],
  demo='''
use optlib::genetic::cross::cross_u64;
fn main() {
    for pos in 1..64usize { assert_eq!(cross_u64(0, !0, pos), (1u64 << pos) - 1, "{}", pos); }
}
'''),
 dict(id='c23-first-zero', property='C23', needs='a best goal of zero at the first check',
  breaks='the stagnation checker takes a zero goal for no goal and keeps its old reference',
  edits=[(C, '            Some((_, best_goal)) => {\n                let delta', '            Some((_, best_goal)) if best_goal == 0.0 && self.change_iter == 0 => false,\n            Some((_, best_goal)) => {\n                let delta')],
  demo='''
fn main() {
    let mut g = GoalNotChange::new(2, 0.1);
    let g: &mut dyn StopChecker<V> = &mut g;
    let r: Vec<bool> = (0..6).map(|i| g.can_stop(&Fake { it: i, best: Some((vec![0.0], 0.0)) })).collect();
    assert_eq!(r, vec![false, false, false, true, true, true]);
}
'''),
 dict(id='c01-bulk-infinite', property='C01', needs='more than 64 individuals appended at once, a late one with an infinite or NaN goal',
  breaks='infinite and NaN fitness of late individuals is replaced by the largest finite number',
  edits=[(G, '        for chromosome in chromosomes_list {\n            self.push(chromosome);\n        }', '''        let first = self.individuals.len();
        for chromosome in chromosomes_list {
            self.push(chromosome);
        }
        for n in first + 64..self.individuals.len() {
            self.individuals[n].fitness = self.individuals[n].fitness.min(f64::MAX);
        }''')],
  demo='''
fn main() {
    let init: Vec<f64> = (0..80).map(|i| if i == 70 { f64::INFINITY } else { i as f64 }).collect();
    let bad = Rc::new(RefCell::new(false));
    let b2 = bad.clone();
    let mut o = ga(init, vec![vec![]], vec![Box::new(FSel(move |p: &mut Population<V>| for i in p.iter() { if i.get_fitness() != i.get_chromosomes()[0] { *b2.borrow_mut() = true; } }))]);
    o.find_min();
    assert!(!*bad.borrow());
}
'''),
 dict(id='c04-limit-of-batch', property='C04', needs='a population of which only dead individuals make it exceed the limit',
  breaks='the limit kills as many as the whole population exceeds it, dead ones included',
  edits=[(S, '        let alive_count = population.len_alive();\n        if alive_count > self.max_count {\n            kill_worst(population, alive_count - self.max_count);', '        let alive_count = population.len_alive();\n        if alive_count > self.max_count || (alive_count == self.max_count && population.len() > 2 * self.max_count) {\n            kill_worst(population, population.len() - self.max_count);')],
  demo='''
use optlib::genetic::selection::{KillFitnessNaN, LimitPopulation};
fn main() {
    let inf = f64::INFINITY;
    for lim in 1..4usize {
        for k in 0..6usize {
            let mut init: Vec<f64> = (0..lim).map(|x| x as f64).collect();
            init.extend(std::iter::repeat(inf).take(k));
            let mut o = ga(init, vec![vec![]], vec![Box::new(KillFitnessNaN::new()), Box::new(LimitPopulation::new(lim))]);
            assert_eq!(o.find_min(), Some((vec![0.0], 0.0)), "{} {}", lim, k);
        }
    }
}
'''),
]
