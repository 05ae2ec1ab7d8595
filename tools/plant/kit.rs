//! closures as components of the optimizers
#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub use optlib::genetic::{self, Creator, Cross, GeneticOptimizer, Individual, Mutation, Pairing, Population, PreBirth, Selection};
pub use optlib::particleswarm::{self, CoordinatesInitializer, Particle, ParticleSwarmOptimizer, PostMove, PostVelocityCalc, Swarm, VelocityCalculator, VelocityInitializer};
pub use optlib::tools::logging::Logger;
pub use optlib::tools::statistics::*;
pub use optlib::tools::stopchecker::*;
pub use optlib::*;
pub use std::cell::RefCell;
pub use std::rc::Rc;
pub type V = Vec<f64>;
pub struct FGoal<X>(pub X);
impl<X: FnMut(&V) -> f64> Goal<V> for FGoal<X> { fn get(&mut self, x: &V) -> f64 { (self.0)(x) } }
pub struct FCreator<X>(pub X);
impl<X: FnMut() -> Vec<V>> Creator<V> for FCreator<X> { fn create(&mut self) -> Vec<V> { (self.0)() } }
pub struct FPairs<X>(pub X);
impl<X: FnMut(&Population<V>) -> Vec<Vec<usize>>> Pairing<V> for FPairs<X> { fn get_pairs(&mut self, p: &Population<V>) -> Vec<Vec<usize>> { (self.0)(p) } }
pub struct FCross<X>(pub X);
impl<X: FnMut(&[&V]) -> Vec<V>> Cross<V> for FCross<X> { fn cross(&mut self, p: &[&V]) -> Vec<V> { (self.0)(p) } }
pub struct FMut<X>(pub X);
impl<X: FnMut(&V) -> V> Mutation<V> for FMut<X> { fn mutation(&mut self, p: &V) -> V { (self.0)(p) } }
pub struct FPre<X>(pub X);
impl<X: FnMut(&Population<V>, &mut Vec<V>)> PreBirth<V> for FPre<X> { fn pre_birth(&mut self, p: &Population<V>, c: &mut Vec<V>) { (self.0)(p, c) } }
pub struct FSel<X>(pub X);
impl<X: FnMut(&mut Population<V>)> Selection<V> for FSel<X> { fn kill(&mut self, p: &mut Population<V>) { (self.0)(p) } }
pub struct FStop<X>(pub X);
impl<X: FnMut(&dyn AlgorithmState<V>) -> bool> StopChecker<V> for FStop<X> { fn can_stop(&mut self, s: &dyn AlgorithmState<V>) -> bool { (self.0)(s) } }
pub struct FLog<X>(pub X);
impl<X: FnMut(char, &dyn AlgorithmState<V>)> Logger<V> for FLog<X> {
    fn start(&mut self, s: &dyn AlgorithmState<V>) { (self.0)('s', s) }
    fn resume(&mut self, s: &dyn AlgorithmState<V>) { (self.0)('r', s) }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<V>) { (self.0)('n', s) }
    fn finish(&mut self, s: &dyn AlgorithmState<V>) { (self.0)('f', s) }
}
pub struct FInit<X>(pub X);
impl<X: FnMut() -> Vec<V>> CoordinatesInitializer<f64> for FInit<X> { fn get_coordinates(&mut self) -> Vec<V> { (self.0)() } }
impl<X: FnMut() -> Vec<V>> VelocityInitializer<f64> for FInit<X> { fn get_velocity(&mut self) -> Vec<V> { (self.0)() } }
pub struct FCalc<X>(pub X);
impl<X: FnMut(&Swarm<f64>, &Particle<f64>) -> V> VelocityCalculator<f64> for FCalc<X> { fn calc_new_velocity(&mut self, s: &Swarm<f64>, p: &Particle<f64>) -> V { (self.0)(s, p) } }
pub struct FPost<X>(pub X);
impl<X: FnMut(V) -> V> PostVelocityCalc<f64> for FPost<X> { fn correct_velocity(&mut self, v: V) -> V { (self.0)(v) } }
pub struct FMove<X>(pub X);
impl<X: FnMut(&mut V)> PostMove<f64> for FMove<X> { fn post_move(&mut self, v: &mut V) { (self.0)(v) } }
pub struct Fake { pub it: usize, pub best: Option<(V, f64)> }
impl AlgorithmState<V> for Fake {
    fn get_best_solution(&self) -> Option<(V, f64)> { self.best.clone() }
    fn get_iteration(&self) -> usize { self.it }
}
/// a genetic optimizer over one-dimensional points: the goal is the coordinate, children from `children`
pub fn ga(init: Vec<f64>, children: Vec<Vec<f64>>, sel: Vec<Box<dyn Selection<V>>>) -> GeneticOptimizer<'static, V> {
    let n = children.len();
    let ch = Rc::new(RefCell::new((children, 0usize)));
    let c2 = ch.clone();
    GeneticOptimizer::new(
        Box::new(FGoal(|x: &V| x[0])),
        Box::new(MaxIterations::new(n)),
        Box::new(FCreator(move || init.iter().map(|x| vec![*x]).collect())),
        Box::new(FPairs(move |p: &Population<V>| { c2.borrow_mut().1 = p.get_iteration(); if p.len() == 0 { vec![] } else { vec![vec![0, 0]] } })),
        Box::new(FCross(move |_: &[&V]| { let c = ch.borrow(); c.0.get(c.1).cloned().unwrap_or(vec![]).iter().map(|x| vec![*x]).collect() })),
        Box::new(FMut(|x: &V| x.clone())),
        sel,
        vec![],
    )
}
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { f(); })).is_err();
    let _ = std::panic::take_hook();
    r
}
