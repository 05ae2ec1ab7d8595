S = 'optlib/src/genetic/selection/mod.rs'
X = 'optlib/src/genetic/cross/mod.rs'
M = 'optlib/src/genetic/mutation/mod.rs'
C = 'optlib/src/tools/stopchecker/mod.rs'
T = 'optlib/src/tools/statistics/mod.rs'
F = 'optlib-testfunc/src/lib.rs'
BUGS = [
 dict(id='c03-last-not-rescanned', property='C03', needs='the best candidate to kill being last on the list when a worse individual arrives',
  breaks='truncation kills a better individual and keeps a worse one',
  edits=[(S, 'for m in 1..kill_list.len() {', 'for m in 1..kill_list.len() - 1 {')],
  demo='''
use optlib::genetic::selection::LimitPopulation;
fn main() {
    let mut v = vec![1.0, 2.0, 3.0, 4.0, 5.0];
    fn perms(v: &mut Vec<f64>, k: usize) {
        if k == v.len() {
            for lim in 1..5 {
                let n = Rc::new(RefCell::new(vec![]));
                let m = n.clone();
                let mut o = ga(v.clone(), vec![vec![]], vec![Box::new(LimitPopulation::new(lim)), Box::new(FSel(move |p: &mut Population<V>| *m.borrow_mut() = p.iter().filter(|i| i.is_alive()).map(|i| i.get_goal()).collect::<Vec<f64>>()))]);
                o.find_min();
                let mut a = n.borrow().clone();
                a.sort_by(|x, y| x.partial_cmp(y).unwrap());
                assert_eq!(a, (1..lim + 1).map(|x| x as f64).collect::<Vec<f64>>(), "{:?} limited to {}", v, lim);
            }
            return;
        }
        for i in k..v.len() { v.swap(k, i); perms(v, k + 1); v.swap(k, i); }
    }
    perms(&mut v, 0);
}
'''),
 dict(id='c07-single-precision', property='C07', needs='an interval whose ends are not representable in single precision',
  breaks='random chromosomes lie outside their interval',
  edits=[('optlib/src/genetic/creation/vec_float.rs', 'interval.0.to_f64().unwrap(),', 'interval.0.to_f32().unwrap(),'), ('optlib/src/genetic/creation/vec_float.rs', 'interval.1.to_f64().unwrap(),', 'interval.1.to_f32().unwrap(),')],
  demo='''
use optlib::genetic::creation::vec_float::RandomCreator;
fn main() {
    let (a, b) = (16777217.0, 16777217.5);
    let mut c = RandomCreator::new(50, vec![(a, b)]);
    for x in c.create() { assert!(a <= x[0] && x[0] <= b, "{}", x[0]); }
}
'''),
 dict(id='c09-i16-top', property='C09', needs='the topmost crossing position',
  breaks='crossing 16-bit signed numbers overflows at position 15',
  edits=[(X, 'let mask_parent_2 = std::i16::MAX >> (size - pos - 1);\n', 'let mask_parent_2 = !(mask_parent_1 & std::i16::MAX) & (std::i16::MAX >> (size - pos));\n')],
  demo='''
use optlib::genetic::cross::cross_i16;
fn main() {
    for pos in 1..16usize {
        for a in [0i16, -1, 1234, -1234, 0x5555] {
            for b in [0i16, -1, 4321, -4321, 0x2aaa] {
                let r = cross_i16(a, b, pos);
                for k in 0..16 {
                    let want = if k >= pos { a >> k } else { b >> k } & 1;
                    assert_eq!((r >> k) & 1, want, "{} {} at {}", a, b, pos);
                }
            }
        }
    }
}
'''),
 dict(id='c09-f32-nan-parent', property='C09', needs='a NaN parent',
  breaks='crossing single-precision numbers does not cross the bits of NaN parents',
  edits=[(X, '''    let child_bits = cross_u32(parent_1_bits, parent_2_bits, pos);
''', '''    if parent_1.is_nan() {
        return parent_2;
    }
    let child_bits = cross_u32(parent_1_bits, parent_2_bits, pos);
''')],
  demo='''
use optlib::genetic::cross::cross_f32;
fn main() {
    let a = f32::from_bits(0x7fc0_0001);
    let b = 1.5f32;
    for pos in 1..32 {
        let m = (1u32 << pos) - 1;
        let r = cross_f32(a, b, pos).to_bits();
        // the quiet bit may be set on the way
        assert_eq!(r | 0x0040_0000, ((a.to_bits() & !m) | (b.to_bits() & m)) | 0x0040_0000, "at {}", pos);
    }
}
'''),
 dict(id='c10-third-parent-ignored', property='C10', needs='a family of three parents',
  breaks='crossing vectors silently ignores the parents beyond the second',
  edits=[(X, 'assert!(parents.len() == 2);', 'assert!(parents.len() >= 2);')],
  demo='''
use optlib::genetic::cross::{CrossMean, VecCrossAllGenes};
fn main() {
    let (a, b, c) = (vec![1.0], vec![2.0], vec![9.0]);
    assert!(panics(|| { let mut x: VecCrossAllGenes<f64> = VecCrossAllGenes::new(Box::new(CrossMean::new())); let r = x.cross(&[&a, &b, &c]); r }));
}
'''),
 dict(id='c10-position-width', property='C10', needs='the crossing position drawn equal to the width of the number',
  breaks='bitwise crossing sometimes panics (shift by the whole width)',
  edits=[(X, '''        let size = mem::size_of::<f32>() * 8;
        let between = Uniform::new(1, size);''', '''        let size = mem::size_of::<f32>() * 8;
        let between = Uniform::new_inclusive(1, size);''')],
  demo='''
use optlib::genetic::cross::CrossBitwise;
fn main() {
    let mut c = CrossBitwise::new();
    for _ in 0..5000 { let r: Vec<f32> = c.cross(&[&1.5f32, &-2.25f32]); assert_eq!(r.len(), 1); }
}
'''),
 dict(id='c10-exp-narrow', property='C10', needs='a mantissa or exponent position drawn near the top',
  breaks='the exponent crossing uses the mantissa positions: it panics on positions outside the exponent',
  edits=[(X, 'let exponent_between = Uniform::new(1, exponent_size);', 'let exponent_between = Uniform::new(1, exponent_size + 1);')],
  demo='''
use optlib::genetic::cross::FloatCrossExp;
fn main() {
    let mut c = FloatCrossExp::new();
    for _ in 0..5000 { let r: Vec<f64> = c.cross(&[&1.5f64, &-2.25f64]); assert_eq!(r.len(), 1); }
}
'''),
 dict(id='c11-one-draw', property='C11', needs='a vector of several genes and a percentage strictly between 0 and 100',
  breaks='one draw decides about all genes of a vector',
  edits=[(M, '''        for chromo in chromosomes {
            if mutate.sample(&mut self.random) < self.probability {''', '''        let draw = mutate.sample(&mut self.random);
        for chromo in chromosomes {
            if draw < self.probability {''')],
  demo='''
use optlib::genetic::mutation::VecMutation;
fn main() {
    let mut m = VecMutation::new(50.0, Box::new(FMut(|x: &f64| x + 1.0)));
    let n: usize = m.mutation(&vec![0.0; 400]).iter().filter(|x| **x == 1.0).count();
    assert!(n > 0 && n < 400, "{} of 400 mutated", n);
}
'''),
 dict(id='c22-exact-iteration', property='C22', needs='a checker that first looks after the limit was passed (a resumed or composed run)',
  breaks='the iteration limit is missed once it was passed',
  edits=[(C, 'state.get_iteration() >= self.max_iter', 'state.get_iteration() == self.max_iter')],
  demo='''
fn main() {
    let mut c = MaxIterations::new(5);
    assert!(!c.can_stop(&Fake { it: 4, best: None }));
    assert!(c.can_stop(&Fake { it: 5, best: None }));
    assert!(c.can_stop(&Fake { it: 6, best: None }));
}
'''),
 dict(id='c23-only-down', property='C23', needs='a best goal that rises by more than delta (a restart, or an algorithm without elitism)',
  breaks='a rise of the best goal is not counted as a change',
  edits=[(C, 'let delta = (best_goal - self.old_goal).abs();', 'let delta = self.old_goal - best_goal;')],
  demo='''
fn main() {
    let mut c = GoalNotChange::new(3, 0.5);
    let g = [5.0, 5.0, 9.0, 9.0, 9.0, 9.0];
    for (i, x) in g.iter().enumerate() {
        assert!(!c.can_stop(&Fake { it: i, best: Some((vec![0.0], *x)) }), "stopped at {}", i);
    }
    assert!(c.can_stop(&Fake { it: 6, best: Some((vec![0.0], 9.0)) }));
}
'''),
 dict(id='c24-empty-run-lost', property='C24', needs='a run that ends without a solution',
  breaks='a run without a solution is not recorded: results and convergence rows fall out of step',
  edits=[(T, 'self.results.push(state.get_best_solution().clone());', '''if let Some(solution) = state.get_best_solution() {
            self.results.push(Some(solution));
        }''')],
  demo='''
fn main() {
    let mut s: Statistics<V> = Statistics::new();
    {
        let mut l = StatisticsLogger::new(&mut s);
        let none = Fake { it: 0, best: None };
        let some = Fake { it: 0, best: Some((vec![1.0], 2.0)) };
        for st in [&some, &none, &some] { l.start(st); l.next_iteration(st); l.finish(st); }
    }
    assert_eq!(s.get_run_count(), 3);
    assert_eq!(s.get_results()[1], None);
}
'''),
 dict(id='c25-divisor-all-runs', property='C25', needs='results of which some have no solution',
  breaks='the deviation of the goal divides by the number of all runs minus one',
  edits=[(T, 'Some((sum / ((count - 1) as GoalValue)).sqrt())', 'Some((sum / ((self.len() - 1) as GoalValue)).sqrt())')],
  demo='''
fn main() {
    let r: Vec<Option<Solution<V>>> = vec![Some((vec![0.0], 1.0)), None, Some((vec![0.0], 3.0))];
    let d = r.get_standard_deviation_goal().unwrap();
    assert!((d - 2f64.sqrt()).abs() < 1e-12, "{}", d);
}
'''),
 dict(id='c26-inclusive-goal', property='C26', needs='a goal at exactly delta from the expected one',
  breaks='the goal predicate accepts a goal at exactly delta',
  edits=[(T, '(goal - expected_goal).abs() < delta', '(goal - expected_goal).abs() <= delta')],
  demo='''
fn main() {
    let p = get_predicate_success_goal::<V>(1.0, 0.5);
    assert!(p(&(vec![], 1.25)) && p(&(vec![], 0.75)));
    assert!(!p(&(vec![], 1.5)) && !p(&(vec![], 0.5)));
    let z = get_predicate_success_goal::<V>(1.0, 0.0);
    assert!(!z(&(vec![], 1.0)));
}
'''),
 dict(id='c27-finite-only', property='C27', needs='a goal that returns NaN or an infinity',
  breaks='calls of the goal that give no finite value are not counted',
  edits=[(T, '''        self.call_count.increment();
        self.goal.get(x)
''', '''        let value = self.goal.get(x);
        if value.is_finite() {
            self.call_count.increment();
        }
        value
''')],
  demo='''
fn main() {
    let mut d = CallCountData::new();
    {
        let mut g = FGoal(|x: &V| x[0]);
        let mut s = GoalCalcStatistics::new(&mut g, &mut d);
        for x in [1.0, f64::NAN, f64::INFINITY, 2.0] { s.get(&vec![x]); }
    }
    assert_eq!(d.get_call_count(), vec![4]);
}
'''),
 dict(id='c27-unite-sums', property='C27', needs='uniting the data of several batches',
  breaks='the first run of the united batch is merged into the last run of the other',
  edits=[(T, 'self.0.append(&mut other.0);', '''if let (Some(last), Some(0)) = (self.0.last(), other.0.first()) {
            if *last == 0 {
                self.0.pop();
            }
        }
        self.0.append(&mut other.0);''')],
  demo='''
fn main() {
    let mut a = CallCountData::new();
    a.next_run(); a.increment(); a.next_run();
    let mut b = CallCountData::new();
    b.next_run(); b.next_run(); b.increment();
    a.unite(b);
    assert_eq!(a.get_call_count(), vec![1, 0, 0, 1]);
}
'''),
 dict(id='c30-many-dimensions', property='C30', needs='a point of more than 256 dimensions',
  breaks='the paraboloid is shifted wrongly from the 257th coordinate on',
  edits=[(F, '(G::from(n).unwrap() + G::from(1.0).unwrap())', '(G::from(n as u8).unwrap() + G::from(1.0).unwrap())')],
  demo='''
fn main() {
    for d in [1, 2, 10, 300] {
        let x: V = (1..d + 1).map(|i| i as f64).collect();
        assert_eq!(optlib_testfunc::paraboloid(&x), 0.0, "dimension {}", d);
    }
}
'''),
 dict(id='c30-wrong-neighbour', property='C30', needs='a point of at least three dimensions',
  breaks='Rosenbrock multiplies a coordinate by its neighbour when it is negative',
  edits=[(F, '((x[n + 1] - x[n] * x[n]).powi(2))', '((x[n + 1] - x[n] * x[n].abs()).powi(2))')],
  demo='''
fn main() {
    // (1 - 1)^2 at x1 = -1, x2 = 1: 100 (1 - 1)^2 + 4
    assert_eq!(optlib_testfunc::rosenbrock(&vec![1.0, 1.0]), 0.0);
    assert_eq!(optlib_testfunc::rosenbrock(&vec![-1.0, 1.0]), 4.0);
}
'''),
]
BUGS = [b for b in BUGS if b['id'] not in ('c09-i16-top', 'c10-exp-narrow', 'c11-one-draw', 'c25-divisor-all-runs')]  # these break stable tests or their demo
