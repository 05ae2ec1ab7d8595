//! the particle swarm with recording components, replayed against a reference
use crate::ga::{osame, Errs, V};
use crate::h::*;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::StopChecker;
use optlib::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Sw {
    pub it: usize,
    pub best: Option<(V, f64)>,
    pub agents: Vec<(V, f64)>,
    pub len: usize,
}
#[derive(Clone, Debug)]
pub struct Probe {
    pub idx: Option<usize>,
    pub x: V,
    pub val: f64,
    pub v: Option<V>,
    pub pb: Option<V>,
    pub pw: Option<V>,
    pub gw: Option<V>,
    pub clone_ok: bool,
}
#[derive(Clone, Debug)]
pub enum Ev {
    Begin(bool),
    End(Option<(V, f64)>),
    Panicked(String),
    Coords(Vec<V>),
    Vels(Vec<V>),
    Goal(V, f64),
    Calc(Sw, Probe, V),
    Corr(u32, usize, V, V),
    Move(u32, usize, V, V),
    Stop(u32, usize, Option<(V, f64)>, bool),
    Log(u32, usize, char, usize, Option<(V, f64)>),
    Set(&'static str, u32, usize),
}
pub type Log = Rc<RefCell<Vec<Ev>>>;

fn sw(s: &Swarm<f64>) -> Sw {
    Sw { it: s.get_iteration(), best: s.get_best_solution(), agents: s.get_agents().iter().map(|a| (a.get_parameter().clone(), a.get_goal())).collect(), len: s.len() }
}

struct GoalC(Log, Rng, u64);
impl Goal<V> for GoalC {
    fn get(&mut self, x: &V) -> f64 {
        let v = match self.2 {
            0 => self.1.pick(&crate::ga::PAL),
            1 => self.1.int(-20, 20) as f64,
            2 => if self.1.chance(75) { self.1.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) } else { self.1.int(-3, 3) as f64 },
            3 => self.1.int(0, 2) as f64,
            _ => x.iter().map(|a| a * a).sum(),
        };
        self.0.borrow_mut().push(Ev::Goal(x.clone(), v));
        v
    }
}
fn ints(r: &mut Rng, d: usize, m: i64) -> V {
    (0..d).map(|_| r.int(-m, m) as f64).collect()
}
struct CoordC(Log, Rng, Vec<usize>, usize);
impl CoordinatesInitializer<f64> for CoordC {
    fn get_coordinates(&mut self) -> Vec<V> {
        let v: Vec<V> = (0..self.2[0]).map(|_| ints(&mut self.1, self.3, 50)).collect();
        self.2.rotate_left(1);
        self.0.borrow_mut().push(Ev::Coords(v.clone()));
        v
    }
}
struct VelC(Log, Rng, Vec<usize>, usize);
impl VelocityInitializer<f64> for VelC {
    fn get_velocity(&mut self) -> Vec<V> {
        let v: Vec<V> = (0..self.2[0]).map(|_| ints(&mut self.1, self.3, 9)).collect();
        self.2.rotate_left(1);
        self.0.borrow_mut().push(Ev::Vels(v.clone()));
        v
    }
}
/// reads what no accessor shows through the library's own calculators (coordinates are small
/// integers, so the reading is exact after rounding)
fn read(c: &mut dyn VelocityCalculator<f64>, s: &Swarm<f64>, p: &Particle<f64>) -> Option<V> {
    rand::rngs::ctl::constant(Some(u64::MAX));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.calc_new_velocity(s, p))).ok();
    rand::rngs::ctl::constant(None);
    r.map(|v| v.iter().map(|x| x.round()).collect())
}
pub fn probe(s: &Swarm<f64>, p: &Particle<f64>) -> Probe {
    let x = p.get_parameter().clone();
    let idx = s.get_agents().iter().position(|a| std::ptr::eq(*a, p));
    let v0 = read(&mut ClassicVelocityCalculator::new(0.0, 0.0), s, p);
    let v1 = read(&mut InertiaVelocityCalculator::new(0.0, 0.0, Box::new(ConstInertia::new(1.0))), s, p);
    let v2 = read(&mut NegativeReinforcement::new(0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0), s, p);
    let agree = |a: Option<V>, b: Option<V>, c: Option<V>| -> Option<V> {
        match (a, b, c) {
            (Some(a), Some(b), Some(c)) if vsame(&a, &b) && vsame(&b, &c) => Some(a),
            _ => None,
        }
    };
    let v = agree(v0, v1, v2.clone());
    let pos = |t: Option<V>| -> Option<V> { match (&t, &v) { (Some(t), Some(v)) if t.len() == x.len() && v.len() == x.len() => Some((0..x.len()).map(|i| t[i] - v[i] + x[i]).collect()), _ => None } };
    let neg = |t: Option<V>| -> Option<V> { match (&t, &v) { (Some(t), Some(v)) if t.len() == x.len() && v.len() == x.len() => Some((0..x.len()).map(|i| v[i] - t[i] + x[i]).collect()), _ => None } };
    let pb = agree(
        pos(read(&mut ClassicVelocityCalculator::new(1.0, 0.0), s, p)),
        pos(read(&mut InertiaVelocityCalculator::new(1.0, 0.0, Box::new(ConstInertia::new(1.0))), s, p)),
        pos(read(&mut NegativeReinforcement::new(1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0), s, p)),
    );
    let pw = neg(read(&mut NegativeReinforcement::new(0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0), s, p));
    let gw = neg(read(&mut NegativeReinforcement::new(0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0), s, p));
    let c = p.clone();
    let mut clone_ok = vsame(c.get_parameter(), &x) && same(c.get_goal(), p.get_goal());
    for (k, m) in [(0, &pb), (1, &pw), (2, &v)] {
        let t = match k {
            0 => pos(read(&mut ClassicVelocityCalculator::new(1.0, 0.0), s, &c)),
            1 => neg(read(&mut NegativeReinforcement::new(0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0), s, &c)),
            _ => read(&mut ClassicVelocityCalculator::new(0.0, 0.0), s, &c),
        };
        if let (Some(t), Some(m)) = (t, m) {
            clone_ok &= vsame(&t, m);
        }
    }
    Probe { idx, x, val: p.get_goal(), v, pb, pw, gw, clone_ok }
}
struct CalcC(Log, Rng, bool);
impl VelocityCalculator<f64> for CalcC {
    fn calc_new_velocity(&mut self, s: &Swarm<f64>, p: &Particle<f64>) -> V {
        let pr = probe(s, p);
        let v = if self.2 && self.1.chance(40) { vec![0.0; pr.x.len()] } else { ints(&mut self.1, pr.x.len(), 9) };
        self.0.borrow_mut().push(Ev::Calc(sw(s), pr, v.clone()));
        v
    }
}
struct CorrC(Log, u32, usize, Rng);
impl PostVelocityCalc<f64> for CorrC {
    fn correct_velocity(&mut self, v: V) -> V {
        let mut a = v.clone();
        if self.3.chance(50) {
            for x in a.iter_mut() {
                *x += self.3.int(-2, 2) as f64;
            }
        }
        self.0.borrow_mut().push(Ev::Corr(self.1, self.2, v, a.clone()));
        a
    }
}
struct MoveC(Log, u32, usize, Rng);
impl PostMove<f64> for MoveC {
    fn post_move(&mut self, x: &mut V) {
        let b = x.clone();
        match self.3.us(0, 3) {
            0 => for y in x.iter_mut() { *y = y.max(-30.0).min(30.0); },
            1 => { let d = x.len(); *x = ints(&mut self.3, d, 20) }
            _ => (),
        }
        self.0.borrow_mut().push(Ev::Move(self.1, self.2, b, x.clone()));
    }
}
struct StopC(Log, u32, Rng, usize);
impl StopChecker<V> for StopC {
    fn can_stop(&mut self, s: &dyn AlgorithmState<V>) -> bool {
        let a = if self.3 == 0 { true } else { self.3 <= 6 && self.2.chance(25) };
        self.3 = if a { 6 } else { self.3 - 1 };
        self.0.borrow_mut().push(Ev::Stop(self.1, s.get_iteration(), s.get_best_solution(), a));
        a
    }
}
struct LogC(Log, u32, usize);
impl LogC {
    fn p(&mut self, c: char, s: &dyn AlgorithmState<V>) {
        self.0.borrow_mut().push(Ev::Log(self.1, self.2, c, s.get_iteration(), s.get_best_solution()));
    }
}
impl Logger<V> for LogC {
    fn start(&mut self, s: &dyn AlgorithmState<V>) { self.p('s', s) }
    fn resume(&mut self, s: &dyn AlgorithmState<V>) { self.p('r', s) }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<V>) { self.p('n', s) }
    fn finish(&mut self, s: &dyn AlgorithmState<V>) { self.p('f', s) }
}

pub fn scenario(seed: u64, setters: bool) -> Vec<Ev> {
    let log: Log = Rc::new(RefCell::new(vec![]));
    let mut r = Rng(seed);
    let mode = r.int(0, 4) as u64;
    let d = r.few(1, 3, 20);
    let np = if r.us(0, 3499) == 0 { r.pick(&[257, 300, 520]) } else if r.us(0, 63) == 0 { r.us(7, 80) } else { r.pick(&[0usize, 1, 2, 3, 4, 5, 5, 6]) };
    let long = if np < 4 && r.us(0, 63) == 0 { 300 } else { 6 };
    // the initialisers are asked once per fresh run: now and then with another size
    let sizes: Vec<usize> = (0..5).map(|k| if k > 0 && r.chance(25) { r.pick(&[0usize, 1, 2, 3, 7]) } else { np }).collect();
    let bad = r.chance(5);
    let vels: Vec<usize> = sizes.iter().map(|n| if bad { n + 1 } else { *n }).collect();
    let still = r.chance(30);
    let sub = |r: &mut Rng| Rng(r.next());
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(GoalC(log.clone(), sub(&mut r), mode)),
        Box::new(StopC(log.clone(), 1, sub(&mut r), long)),
        Box::new(CoordC(log.clone(), sub(&mut r), sizes, d)),
        Box::new(VelC(log.clone(), sub(&mut r), vels, d)),
        Box::new(CalcC(log.clone(), sub(&mut r), still)),
    );
    let mut id = 1u32;
    let mut conf = |o: &mut ParticleSwarmOptimizer<f64>, which: usize, n: usize, id: u32, r: &mut Rng| {
        let w = match which {
            0 => {
                o.set_loggers((0..n).map(|k| Box::new(LogC(log.clone(), id, k)) as Box<dyn Logger<V>>).collect());
                ("loggers", n)
            }
            1 => {
                o.set_post_moves((0..n).map(|k| Box::new(MoveC(log.clone(), id, k, Rng(r.next()))) as Box<dyn PostMove<f64>>).collect());
                ("post_moves", n)
            }
            2 => {
                o.set_post_velocity_calc((0..n).map(|k| Box::new(CorrC(log.clone(), id, k, Rng(r.next()))) as Box<dyn PostVelocityCalc<f64>>).collect());
                ("correctors", n)
            }
            _ => {
                o.set_stop_checker(Box::new(StopC(log.clone(), id, Rng(r.next()), 6)));
                ("stop_checker", 1)
            }
        };
        log.borrow_mut().push(Ev::Set(w.0, id, w.1));
    };
    for w in 0..3 {
        if r.chance(80) {
            let n = r.us(0, 3);
            conf(&mut o, w, n, 1, &mut r);
        }
    }
    for k in 0..r.us(1, 4) {
        if setters || r.chance(15) {
            for _ in 0..r.us(0, 2) {
                id += 1;
                let (w, n) = (r.us(0, 3), r.us(0, 3));
                conf(&mut o, w, n, id, &mut r);
            }
        }
        let fresh = r.chance(if k == 0 { 85 } else { 45 });
        log.borrow_mut().push(Ev::Begin(fresh));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if fresh { o.find_min() } else { o.next_iterations() }));
        match res {
            Ok(res) => log.borrow_mut().push(Ev::End(res)),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
                log.borrow_mut().push(Ev::Panicked(m));
                break;
            }
        }
    }
    let v = log.borrow().clone();
    v
}

/// a ranks strictly before b (better); values that are not finite are equal and last
fn before(a: f64, b: f64) -> bool {
    if !a.is_finite() { false } else if !b.is_finite() { true } else { a < b }
}

#[derive(Clone, Debug)]
struct Part {
    x: V,
    v: V,
    val: f64,
    hist: Vec<(V, f64)>,
}

fn heard(evs: &[&Ev], what: char, conf: &HashMap<&'static str, (u32, usize)>) -> Result<(), String> {
    let (id, n) = conf["loggers"];
    let got: Vec<(u32, usize)> = evs.iter().filter_map(|e| if let Ev::Log(i, k, c, ..) = e { if *c == what { Some((*i, *k)) } else { None } } else { None }).collect();
    let want: Vec<(u32, usize)> = (0..n).map(|k| (id, k)).collect();
    if got != want { Err(format!("loggers that heard '{}': {:?}, expected {:?}", what, got, want)) } else { Ok(()) }
}

/// new global record after evaluations; prev: the record before
fn record(prev: &Option<(V, f64)>, all: &[(V, f64)], got: &Option<(V, f64)>, e: &mut Errs, at: &str) {
    match got {
        None => {
            if !all.is_empty() {
                e.e(&["C14"], format!("{}: no best reported after {} evaluations", at, all.len()));
            }
        }
        Some((x, f)) => {
            if !all.iter().any(|h| vsame(&h.0, x) && same(h.1, *f)) {
                e.e(&["C14"], format!("{}: reported best {:?} was not visited in this run with that value", at, got));
            }
            if let Some(h) = all.iter().find(|h| before(h.1, *f)) {
                e.e(&["C14"], format!("{}: reported best {} but {} was evaluated in this run", at, f, h.1));
            }
            if let Some((px, pf)) = prev {
                if !before(*f, *pf) && !(vsame(px, x) && same(*f, *pf)) {
                    e.e(&["C14"], format!("{}: best {:?} was replaced by {:?} which is not better", at, prev, got));
                }
            }
        }
    }
}

pub fn walk(evs: &[Ev]) -> Errs {
    let mut e = Errs::new();
    let mut conf: HashMap<&'static str, (u32, usize)> = HashMap::new();
    for (w, n) in [("loggers", 0), ("post_moves", 0), ("correctors", 0), ("stop_checker", 1)] {
        conf.insert(w, (1, n));
    }
    let mut ps: Vec<Part> = vec![];
    let mut all: Vec<(V, f64)> = vec![];
    let mut best: Option<(V, f64)> = None;
    let mut worst_pos: Option<V> = None;
    let mut committed = 0usize; // evaluations covered by the global records
    let mut worst_seen_at = 0usize;
    let mut it = 0usize;
    let mut i = 0;
    while i < evs.len() {
        match &evs[i] {
            Ev::Set(w, id, n) => {
                conf.insert(w, (*id, *n));
                i += 1;
                continue;
            }
            Ev::Begin(_) => (),
            x => {
                e.e(&["C21"], format!("event outside a run: {:?}", x));
                i += 1;
                continue;
            }
        }
        let fresh = matches!(evs[i], Ev::Begin(true));
        let mut j = i + 1;
        while !matches!(evs[j], Ev::End(_) | Ev::Panicked(_)) {
            j += 1;
        }
        let seg: Vec<&Ev> = evs[i + 1..j].iter().collect();
        let end = &evs[j];
        i = j + 1;
        for ev in &seg {
            let bad = match ev {
                Ev::Corr(id, ..) => *id != conf["correctors"].0,
                Ev::Move(id, ..) => *id != conf["post_moves"].0,
                Ev::Stop(id, ..) => *id != conf["stop_checker"].0,
                Ev::Log(id, ..) => *id != conf["loggers"].0,
                _ => false,
            };
            if bad {
                e.e(&["C28"], format!("a component that was replaced was used: {:?}; in force: {:?}", ev, conf));
            }
        }
        let coords: Vec<&Vec<V>> = seg.iter().filter_map(|x| if let Ev::Coords(c) = x { Some(c) } else { None }).collect();
        let vels: Vec<&Vec<V>> = seg.iter().filter_map(|x| if let Ev::Vels(c) = x { Some(c) } else { None }).collect();
        let mismatch = fresh && coords.len() == 1 && vels.len() == 1 && coords[0].len() != vels[0].len();
        if let Ev::Panicked(m) = end {
            if !mismatch {
                e.e(&["C21", "C16"], format!("unexpected panic: {}", m));
            }
            return e;
        }
        if mismatch {
            e.e(&["C21"], format!("{} coordinates and {} velocities were accepted", coords[0].len(), vels[0].len()));
            return e;
        }
        let result = if let Ev::End(r) = end { r.clone() } else { None };
        let stops: Vec<usize> = (0..seg.len()).filter(|k| matches!(seg[*k], Ev::Stop(..))).collect();
        if stops.is_empty() {
            e.e(&["C21"], "the stop checker was never asked".into());
            return e;
        }
        if coords.len() != fresh as usize || vels.len() != fresh as usize {
            e.e(&["C21"], format!("initialisers were asked {} and {} times", coords.len(), vels.len()));
            return e;
        }
        let prelude = &seg[..stops[0]];
        if fresh {
            // post-moves and evaluations of the initial positions
            let moves: Vec<(usize, &V, &V)> = prelude.iter().filter_map(|x| if let Ev::Move(_, k, a, b) = x { Some((*k, a, b)) } else { None }).collect();
            let nm = conf["post_moves"].1;
            let mut want = vec![];
            if moves.len() != nm * coords[0].len() {
                e.e(&["C16"], format!("{} post-moves of {} initial positions with {} steps", moves.len(), coords[0].len(), nm));
                return e;
            }
            for (n, c) in coords[0].iter().enumerate() {
                let mut x = c.clone();
                // the steps of one position in order; positions may be interleaved step by step
                for k in 0..nm {
                    let a = moves[n * nm + k];
                    let b = moves[k * coords[0].len() + n];
                    let m = if a.0 == k && vsame(a.1, &x) { a } else { b };
                    if m.0 != k || !vsame(m.1, &x) {
                        e.e(&["C16"], format!("initial position {} step {}: got {:?}, expected {:?}", n, k, a, x));
                        return e;
                    }
                    x = m.2.clone();
                }
                want.push(x);
            }
            let goals: Vec<(V, f64)> = prelude.iter().filter_map(|x| if let Ev::Goal(a, b) = x { Some((a.clone(), *b)) } else { None }).collect();
            if goals.len() != want.len() || goals.iter().zip(&want).any(|(g, w)| !vsame(&g.0, w)) {
                e.e(&["C16"], format!("initial evaluations {:?}, expected positions {:?}", goals, want));
                return e;
            }
            ps = (0..want.len()).map(|n| Part { x: want[n].clone(), v: vels[0][n].clone(), val: goals[n].1, hist: vec![goals[n].clone()] }).collect();
            all = goals.clone();
            best = None;
            worst_pos = None;
            worst_seen_at = 0;
            committed = all.len();
            it = 0;
            let nb = if let Ev::Stop(_, _, b, _) = seg[stops[0]] { b.clone() } else { None };
            record(&None, &all, &nb, &mut e, "after initialisation");
            if all.is_empty() && nb.is_some() {
                e.e(&["C14", "C21"], format!("best {:?} of an earlier run survived the restart", nb));
            }
            best = nb.or(best.take());
            if let Err(m) = heard(prelude, 's', &conf) {
                e.e(&["C21"], m);
            }
            for k in 0..conf["loggers"].1 {
                let s = prelude.iter().position(|x| matches!(x, Ev::Log(_, kk, 's', ..) if *kk == k));
                let r = prelude.iter().position(|x| matches!(x, Ev::Log(_, kk, 'r', ..) if *kk == k));
                if s > r {
                    e.e(&["C21"], "resume announced before start".into());
                }
            }
            let lg = prelude.iter().rposition(|x| matches!(x, Ev::Goal(..)));
            let fl = prelude.iter().position(|x| matches!(x, Ev::Log(..)));
            if lg.is_some() && fl.is_some() && lg > fl {
                e.e(&["C21"], "start announced before the initial swarm was evaluated".into());
            }
        } else if prelude.iter().any(|x| !matches!(x, Ev::Log(_, _, 'r', ..))) {
            e.e(&["C21"], format!("a continuation does {:?} before the first stop check", prelude));
            return e;
        }
        if let Err(m) = heard(prelude, 'r', &conf) {
            e.e(&["C21"], m);
        }
        for x in prelude {
            if let Ev::Log(_, _, w, pit, b) = x {
                if *pit != it || !osame(b, &best) {
                    e.e(&["C21", "C14"], format!("'{}' announced with iteration {} best {:?}, expected {} {:?}", w, pit, b, it, best));
                }
            }
        }
        for (k, sp) in stops.iter().enumerate() {
            let (pit, pb, ans) = if let Ev::Stop(_, a, b, c) = seg[*sp] { (*a, b.clone(), *c) } else { unreachable!() };
            if pit != it {
                e.e(&["C21"], format!("stop check at iteration {} instead of {}", pit, it));
            }
            if !osame(&pb, &best) {
                e.e(&["C14"], format!("stop check sees best {:?} instead of {:?}", pb, best));
            }
            let endp = if k + 1 < stops.len() { stops[k + 1] } else { seg.len() };
            let part = &seg[sp + 1..endp];
            if ans {
                if k + 1 != stops.len() {
                    e.e(&["C21"], "the run went on after the stop checker said stop".into());
                    return e;
                }
                if let Err(m) = heard(part, 'f', &conf) {
                    e.e(&["C21"], m);
                }
                if part.iter().any(|x| !matches!(x, Ev::Log(_, _, 'f', ..))) {
                    e.e(&["C21"], format!("unexpected activity after stop: {:?}", part));
                }
                for x in part {
                    if let Ev::Log(_, _, _, pit, b) = x {
                        if *pit != it || !osame(b, &best) {
                            e.e(&["C21"], format!("finish announced with {:?}", x));
                        }
                    }
                }
                if !osame(&result, &best) {
                    e.e(&["C21", "C14"], format!("returned {:?}, reported best {:?}", result, best));
                }
                continue;
            }
            if k + 1 == stops.len() {
                e.e(&["C21"], "the run ended without a stop answer".into());
                return e;
            }
            // one iteration: a queue of what must come next for each particle
            let mut cur: Option<(usize, V, usize, bool, usize)> = None; // particle, vector, correctors done, moving, steps done
            let mut next = 0usize;
            let (nc, nm) = (conf["correctors"].1, conf["post_moves"].1);
            let mut settled = part.len();
            for (q, ev) in part.iter().enumerate() {
                match ev {
                    Ev::Calc(s, p, v) => {
                        if cur.is_some() || next >= ps.len() {
                            e.e(&["C16"], format!("velocity requested again: particle {:?} of {}", p.idx, ps.len()));
                            return e;
                        }
                        if p.idx != Some(next) {
                            e.e(&["C16"], format!("velocity requested for particle {:?}, expected {}", p.idx, next));
                            return e;
                        }
                        let m = &ps[next];
                        if s.len != ps.len() || s.agents.len() != ps.len() || s.agents.iter().zip(&ps).any(|(a, b)| !vsame(&a.0, &b.x) || !same(a.1, b.val)) {
                            e.e(&["C28", "C16"], format!("the swarm shows {:?} (len {}), expected {:?}", s.agents, s.len, ps.iter().map(|p| (&p.x, p.val)).collect::<Vec<_>>()));
                        }
                        if s.it != it {
                            e.e(&["C21"], format!("the calculator sees iteration {} instead of {}", s.it, it));
                        }
                        if !osame(&s.best, &best) {
                            e.e(&["C14"], format!("the calculator sees best {:?} instead of {:?}", s.best, best));
                        }
                        if !p.clone_ok {
                            e.e(&["C28"], "a cloned particle differs from the original".into());
                        }
                        if let Some(pv) = &p.v {
                            if !vsame(pv, &m.v) {
                                e.e(&["C16"], format!("particle {} has velocity {:?}, expected {:?}", next, pv, m.v));
                            }
                            if let Some(pb) = &p.pb {
                                if !m.hist.iter().any(|h| vsame(&h.0, pb) && !m.hist.iter().any(|g| before(g.1, h.1))) {
                                    e.e(&["C15"], format!("personal best of particle {} is {:?}, its history is {:?}", next, pb, m.hist));
                                }
                            }
                            if let Some(pw) = &p.pw {
                                if p.pb.is_some() && !m.hist.iter().any(|h| vsame(&h.0, pw) && !m.hist.iter().any(|g| before(h.1, g.1))) {
                                    e.e(&["C15"], format!("personal worst of particle {} is {:?}, its history is {:?}", next, pw, m.hist));
                                }
                            }
                            if let (Some(gw), Some(_)) = (&p.gw, &p.pb) {
                                let done = &all[..committed];
                                if !done.iter().any(|h| vsame(&h.0, gw) && !done.iter().any(|g| before(h.1, g.1))) {
                                    e.e(&["C14"], format!("the worst record is at {:?}, evaluated so far {:?}", gw, done));
                                }
                                if let Some(w) = &worst_pos {
                                    if !vsame(w, gw) && worst_seen_at > 0 {
                                        // replaced: some later value must be strictly worse than everything before
                                        let old = &all[..worst_seen_at];
                                        let worse = all[worst_seen_at..committed].iter().any(|h| old.iter().all(|o| before(o.1, h.1)));
                                        if !worse {
                                            e.e(&["C14"], format!("the worst record moved from {:?} to {:?} without a worse value", w, gw));
                                        }
                                    }
                                }
                                worst_pos = Some(gw.clone());
                                worst_seen_at = committed;
                            }
                        }
                        cur = Some((next, v.clone(), 0, false, 0));
                        next += 1;
                    }
                    Ev::Corr(_, kk, a, b) => match &mut cur {
                        Some((_, v, done, false, _)) if *done == *kk && vsame(a, v) => {
                            *v = b.clone();
                            *done += 1;
                        }
                        _ => {
                            e.e(&["C16"], format!("corrector {} got {:?}, expected state {:?}", kk, a, cur));
                            return e;
                        }
                    },
                    Ev::Move(_, kk, a, b) => {
                        match &mut cur {
                            Some((n, v, done, moving, steps)) if *done == nc => {
                                if !*moving {
                                    ps[*n].v = v.clone();
                                    *v = ps[*n].x.iter().zip(v.iter()).map(|(x, y)| x + y).collect();
                                    *moving = true;
                                }
                                if *steps != *kk || !vsame(a, v) {
                                    e.e(&["C16"], format!("post-move {} got {:?}, expected step {} with {:?}", kk, a, steps, v));
                                    return e;
                                }
                                *v = b.clone();
                                *steps += 1;
                            }
                            _ => {
                                e.e(&["C16"], format!("post-move {} got {:?}, expected state {:?}", kk, a, cur));
                                return e;
                            }
                        }
                    }
                    Ev::Goal(x, f) => match cur.take() {
                        Some((n, mut v, done, moving, steps)) if done == nc => {
                            if !moving {
                                ps[n].v = v.clone();
                                v = ps[n].x.iter().zip(v.iter()).map(|(x, y)| x + y).collect();
                            }
                            if steps != nm || !vsame(x, &v) {
                                e.e(&["C16"], format!("evaluated {:?} after {} post-moves, expected {:?} after {}", x, steps, v, nm));
                                return e;
                            }
                            ps[n].x = x.clone();
                            ps[n].val = *f;
                            ps[n].hist.push((x.clone(), *f));
                            all.push((x.clone(), *f));
                        }
                        _ => {
                            e.e(&["C16"], format!("unexpected evaluation of {:?}", x));
                            return e;
                        }
                    },
                    Ev::Log(..) => {
                        settled = q;
                        break;
                    }
                    x => {
                        e.e(&["C21"], format!("unexpected activity in an iteration: {:?}", x));
                        return e;
                    }
                }
            }
            if cur.is_some() || next != ps.len() {
                e.e(&["C16", "C21"], format!("{} of {} particles were moved in the iteration", next, ps.len()));
                return e;
            }
            it += 1;
            committed = all.len();
            let tail = &part[settled..];
            if let Err(m) = heard(part, 'n', &conf) {
                e.e(&["C21"], m);
            }
            if tail.iter().any(|x| !matches!(x, Ev::Log(_, _, 'n', ..))) {
                e.e(&["C21"], format!("unexpected activity after the iteration: {:?}", tail));
                return e;
            }
            let nb = if let Ev::Stop(_, _, b, _) = seg[stops[k + 1]] { b.clone() } else { None };
            record(&best, &all, &nb, &mut e, &format!("iteration {}", it));
            best = nb;
            for x in tail {
                if let Ev::Log(_, _, _, pit, b) = x {
                    if *pit != it {
                        e.e(&["C21"], format!("iteration announced as {} instead of {}", pit, it));
                    }
                    if !osame(b, &best) {
                        e.e(&["C21", "C14"], format!("iteration announced with best {:?}, the new best is {:?}", b, best));
                    }
                }
            }
        }
    }
    e
}

pub fn protocol(h: &mut H, pid: &'static str) {
    let n = h.n(400);
    for _ in 0..n {
        let s = h.r.next();
        h.case("pso-run", format!("particle swarm with recording components, scenario seed {}", s), || {
            let evs = scenario(s, pid == "C28");
            let moved = evs.iter().any(|x| matches!(x, Ev::Calc(..)));
            let e = walk(&evs);
            e.of(pid).map(|_| moved).map_err(|m| format!("{}\nevents: {:?}", m, evs).chars().take(6000).collect())
        });
    }
}

#[derive(Clone, Debug)]
enum Wv {
    Init(V),
    Calc(V, f64, V),
    Corr(V, V),
    Move(V, V),
    Goal(V, f64),
    Iter(usize, Option<(V, f64)>),
}
type WLog = Rc<RefCell<Vec<Wv>>>;
fn wild(r: &mut Rng) -> f64 {
    match r.us(0, 11) {
        0 => r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
        1 => r.pick(&[f64::MAX, f64::MIN, 1e200, -1e200]),
        2 => r.pick(&[0.0, -0.0, f64::MIN_POSITIVE, 5e-324]),
        3 => f64::from_bits(r.next()),
        4 => r.pick(&[16777217.0, 1.0000000000000002, 1e-13]),
        _ => r.real(-50., 50.),
    }
}
fn wilds(r: &mut Rng, d: usize) -> V {
    let calm = r.chance(40);
    (0..d).map(|_| if calm { r.real(-50., 50.) } else { wild(r) }).collect()
}
struct WGoal(WLog, Rng);
impl Goal<V> for WGoal {
    fn get(&mut self, x: &V) -> f64 {
        let v = if self.1.chance(70) { self.1.pick(&crate::ga::PAL) } else { wild(&mut self.1) };
        self.0.borrow_mut().push(Wv::Goal(x.clone(), v));
        v
    }
}
struct WInit(WLog, Rng, usize, usize);
impl CoordinatesInitializer<f64> for WInit {
    fn get_coordinates(&mut self) -> Vec<V> {
        (0..self.2).map(|_| { let x = wilds(&mut self.1, self.3); self.0.borrow_mut().push(Wv::Init(x.clone())); x }).collect()
    }
}
impl VelocityInitializer<f64> for WInit {
    fn get_velocity(&mut self) -> Vec<V> {
        (0..self.2).map(|_| wilds(&mut self.1, self.3)).collect()
    }
}
struct WCalc(WLog, Rng);
impl VelocityCalculator<f64> for WCalc {
    fn calc_new_velocity(&mut self, _: &Swarm<f64>, p: &Particle<f64>) -> V {
        let v = wilds(&mut self.1, p.get_parameter().len());
        self.0.borrow_mut().push(Wv::Calc(p.get_parameter().clone(), p.get_goal(), v.clone()));
        v
    }
}
struct WCorr(WLog, Rng);
impl PostVelocityCalc<f64> for WCorr {
    fn correct_velocity(&mut self, v: V) -> V {
        let a = if self.1.chance(60) { v.clone() } else { wilds(&mut self.1, v.len()) };
        self.0.borrow_mut().push(Wv::Corr(v, a.clone()));
        a
    }
}
struct WMove(WLog, Rng);
impl PostMove<f64> for WMove {
    fn post_move(&mut self, x: &mut V) {
        let b = x.clone();
        if self.1.chance(40) {
            *x = wilds(&mut self.1, b.len());
        }
        self.0.borrow_mut().push(Wv::Move(b, x.clone()));
    }
}
struct WLogC(WLog);
impl WLogC {
    fn p(&mut self, s: &dyn AlgorithmState<V>) {
        self.0.borrow_mut().push(Wv::Iter(s.get_iteration(), s.get_best_solution()));
    }
}
impl Logger<V> for WLogC {
    fn start(&mut self, s: &dyn AlgorithmState<V>) { self.p(s) }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<V>) { self.p(s) }
}
struct WStop(usize);
impl StopChecker<V> for WStop {
    fn can_stop(&mut self, s: &dyn AlgorithmState<V>) -> bool { s.get_iteration() >= self.0 }
}
/// one run over any floating point numbers: positions, velocities and values that are huge, tiny or not finite
fn wild_case(seed: u64, pid: &str) -> Result<bool, String> {
    let mut r = Rng(seed);
    let log: WLog = Rc::new(RefCell::new(vec![]));
    let (np, d) = (r.wide(1, 4, 70), r.wide(1, 4, 70));
    let d = if np > 80 { d.min(3) } else { d };
    let (nc, nm, its) = (r.us(0, 2), r.us(0, 2), r.few(0, 5, if np * d < 20 { 90 } else { 5 }));
    let mut sub = || Rng(r.next());
    let mut o = ParticleSwarmOptimizer::new(Box::new(WGoal(log.clone(), sub())), Box::new(WStop(its)), Box::new(WInit(log.clone(), sub(), np, d)), Box::new(WInit(log.clone(), sub(), np, d)), Box::new(WCalc(log.clone(), sub())));
    o.set_post_velocity_calc((0..nc).map(|_| Box::new(WCorr(log.clone(), sub())) as Box<dyn PostVelocityCalc<f64>>).collect());
    o.set_post_moves((0..nm).map(|_| Box::new(WMove(log.clone(), sub())) as Box<dyn PostMove<f64>>).collect());
    o.set_loggers(vec![Box::new(WLogC(log.clone()))]);
    for _ in 0..2 {
        log.borrow_mut().clear();
        let res = o.find_min();
        let l = log.borrow();
        if pid == "C14" {
            let mut all: Vec<(V, f64)> = vec![];
            let mut prev: Option<(V, f64)> = None;
            for ev in l.iter() {
                match ev {
                    Wv::Goal(x, v) => all.push((x.clone(), *v)),
                    Wv::Iter(it, got) => {
                        let mut e = Errs::new();
                        record(&prev, &all, got, &mut e, &format!("iteration {}", it));
                        e.of("C14")?;
                        prev = got.clone();
                    }
                    _ => (),
                }
            }
            if !osame(&res, &prev) {
                return Err(format!("returned {:?}, the last reported best is {:?}", res, prev));
            }
            continue;
        }
        let mut k = 0;
        let mut pop = |what: &str| -> Result<Wv, String> { k += 1; l.get(k - 1).cloned().ok_or(format!("{} is missing", what)) };
        let mut parts: Vec<(V, f64)> = vec![];
        for _ in 0..np {
            match pop("initial position")? { Wv::Init(x) => parts.push((x, 0.0)), x => return Err(format!("expected an initial position, saw {:?}", x)) }
        }
        for p in parts.iter_mut() {
            for _ in 0..nm {
                match pop("post-move of an initial position")? { Wv::Move(b, a) if vsame(&b, &p.0) => p.0 = a, x => return Err(format!("expected the post-move step on {:?}, saw {:?}", p.0, x)) }
            }
        }
        for p in parts.iter_mut() {
            match pop("evaluation of an initial position")? { Wv::Goal(x, v) if vsame(&x, &p.0) => p.1 = v, x => return Err(format!("expected an evaluation at {:?}, saw {:?}", p.0, x)) }
        }
        for it in 0..its + 1 {
            if it > 0 {
                for p in parts.iter_mut() {
                    let mut v = match pop("velocity calculation")? { Wv::Calc(x, f, v) if vsame(&x, &p.0) && same(f, p.1) => v, x => return Err(format!("expected the velocity calculation for {:?}, saw {:?}", p, x)) };
                    for _ in 0..nc {
                        v = match pop("velocity corrector")? { Wv::Corr(b, a) if vsame(&b, &v) => a, x => return Err(format!("expected the correction of {:?}, saw {:?}", v, x)) };
                    }
                    let mut x: V = p.0.iter().zip(&v).map(|(a, b)| a + b).collect();
                    for _ in 0..nm {
                        x = match pop("post-move")? { Wv::Move(b, a) if vsame(&b, &x) => a, y => return Err(format!("expected the post-move step on {:?} ({:?} moved by {:?}), saw {:?}", x, p.0, v, y)) };
                    }
                    match pop("evaluation")? { Wv::Goal(y, f) if vsame(&y, &x) => *p = (x, f), y => return Err(format!("expected an evaluation at {:?} ({:?} moved by {:?}), saw {:?}", x, p.0, v, y)) }
                }
            }
            match pop("logger call")? { Wv::Iter(i, ..) if i == it => (), x => return Err(format!("expected the logger at iteration {}, saw {:?}", it, x)) }
        }
        if k != l.len() {
            return Err(format!("unexpected: {:?}", l[k]));
        }
    }
    Ok(its > 0)
}
pub fn wild_runs(h: &mut H, pid: &'static str) {
    let n = h.n(100);
    for _ in 0..n {
        let s = h.r.next();
        h.case("pso-wild-run", format!("particle swarm over any floating point numbers, scenario seed {}", s), || {
            wild_case(s, pid).map_err(|m| m.chars().take(3000).collect())
        });
    }
}

/// calculators of the library inside a run, with the draws they made
type Seen = Rc<RefCell<Vec<(Sw, Probe, V, Vec<u64>, Vec<usize>)>>>;
struct CalcW(Box<dyn VelocityCalculator<f64>>, Seen, Rc<RefCell<Vec<usize>>>);
impl VelocityCalculator<f64> for CalcW {
    fn calc_new_velocity(&mut self, s: &Swarm<f64>, p: &Particle<f64>) -> V {
        let idx = s.get_agents().iter().position(|a| std::ptr::eq(*a, p));
        let pr = Probe { idx, x: p.get_parameter().clone(), val: p.get_goal(), v: None, pb: None, pw: None, gw: None, clone_ok: true };
        rand::rngs::ctl::take_log();
        self.2.borrow_mut().clear();
        let v = self.0.calc_new_velocity(s, p);
        self.1.borrow_mut().push((sw(s), pr, v.clone(), rand::rngs::ctl::take_log(), self.2.borrow().clone()));
        v
    }
}
fn f32s(raw: &[u64]) -> Vec<f64> {
    use rand::distributions::{Distribution, Uniform};
    let u = Uniform::new_inclusive(0.0f32, 1.0f32);
    let keep = raw.to_vec();
    rand::rngs::ctl::script(&keep);
    let mut g = rand::thread_rng();
    let o = (0..keep.len()).map(|_| u.sample(&mut g) as f64).collect();
    rand::rngs::ctl::script(&[]);
    rand::rngs::ctl::take_log();
    o
}
fn f64s(raw: &[u64]) -> Vec<f64> {
    use rand::distributions::{Distribution, Uniform};
    let u = Uniform::new_inclusive(0.0f64, 1.0f64);
    let keep = raw.to_vec();
    rand::rngs::ctl::script(&keep);
    let mut g = rand::thread_rng();
    let o = (0..keep.len()).map(|_| u.sample(&mut g)).collect();
    rand::rngs::ctl::script(&[]);
    rand::rngs::ctl::take_log();
    o
}
struct InertiaR(Rc<RefCell<Vec<usize>>>, f64);
impl Inertia<f64> for InertiaR {
    fn get(&mut self, i: usize) -> f64 {
        self.0.borrow_mut().push(i);
        self.1 - 0.03125 * i as f64
    }
}
struct Clamp;
impl PostVelocityCalc<f64> for Clamp {
    fn correct_velocity(&mut self, v: V) -> V {
        v.iter().map(|x| if x.is_finite() { x.max(-50.0).min(50.0) } else { 1.0 }).collect()
    }
}
struct PlainInit(Rng, usize, usize, bool);
impl CoordinatesInitializer<f64> for PlainInit {
    fn get_coordinates(&mut self) -> Vec<V> {
        (0..self.1).map(|_| (0..self.2).map(|_| self.0.real(-10., 10.)).collect()).collect()
    }
}
impl VelocityInitializer<f64> for PlainInit {
    fn get_velocity(&mut self) -> Vec<V> {
        (0..self.1).map(|_| (0..self.2).map(|_| self.0.real(-3., 3.)).collect()).collect()
    }
}
struct GoalG(Log, Rng, u64);
impl Goal<V> for GoalG {
    fn get(&mut self, x: &V) -> f64 {
        let v = if self.1.chance(self.2) { f64::NAN } else { self.1.real(-10., 10.) };
        self.0.borrow_mut().push(Ev::Goal(x.clone(), v));
        v
    }
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs() + b.abs()) * 4.0
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            o.push(q);
        }
    }
    o
}

pub fn c19(h: &mut H) {
    // construction of the canonical calculator
    for (a, b, al, ok) in [
        (2.05, 2.05, 0.5, true), (2.0, 2.0, 0.5, false), (1.0, 2.0, 0.5, false), (4.5, 0.0, 0.9, true), (2.05, 2.05, 0.0, false), (2.05, 2.05, 1.0, false),
        (2.05, 2.05, -0.5, false), (2.05, 2.05, 1.5, false), (2.0, 2.0000001, 0.5, true), (0.0, 4.1, 0.001, true), (3.0, 1.0, 0.5, false), (f64::NAN, 5.0, 0.5, false), (3.0, 3.0, f64::NAN, false), (1e6, 1.0, 0.999, true),
    ] {
        h.case("canonical-new", format!("CanonicalVelocityCalculator::new({}, {}, {})", a, b, al), || {
            let p = panics(|| CanonicalVelocityCalculator::new(a, b, al));
            if p == ok { Err(format!("accepted: {}", !p)) } else { Ok(true) }
        });
    }
    let n = h.n(250);
    let pm = perms(6);
    for k in 0..n {
        let s = h.r.next();
        let kind = k % 4;
        let ph: Vec<f64> = (0..6).map(|_| h.r.real(0.2, 3.0)).collect();
        let al = h.r.real(0.05, 0.95);
        let xi = h.r.real(0.1, 0.9);
        let nan = h.r.pick(&[0u64, 0, 20]);
        let (np, d) = (h.r.us(1, 5), h.r.few(1, 4, 40));
        let what = match kind {
            0 => format!("Classic({}, {})", ph[0], ph[1]),
            1 => format!("Canonical({}, {}, {})", ph[0] + 3.0, ph[1] + 1.0, al),
            2 => format!("Inertia({}, {}, weight {} - iteration/32)", ph[0], ph[1], xi),
            _ => format!("NegativeReinforcement({:?}, {})", ph, xi),
        };
        let pm = &pm;
        h.case("velocity", format!("{}, {} particles, dimension {}, scenario seed {}, {}% NaN goals", what, np, d, s, nan), move || {
            let log: Log = Rc::new(RefCell::new(vec![]));
            let seen: Seen = Rc::new(RefCell::new(vec![]));
            let asked = Rc::new(RefCell::new(vec![]));
            let calc: Box<dyn VelocityCalculator<f64>> = match kind {
                0 => Box::new(ClassicVelocityCalculator::new(ph[0], ph[1])),
                1 => Box::new(CanonicalVelocityCalculator::new(ph[0] + 3.0, ph[1] + 1.0, al)),
                2 => Box::new(InertiaVelocityCalculator::new(ph[0], ph[1], Box::new(InertiaR(asked.clone(), xi)))),
                _ => Box::new(NegativeReinforcement::new(ph[0], ph[1], ph[2], ph[3], ph[4], ph[5], xi)),
            };
            let mut r = Rng(s);
            let init = r.next();
            let mut o = ParticleSwarmOptimizer::new(
                Box::new(GoalG(log.clone(), Rng(r.next()), nan)),
                Box::new(optlib::tools::stopchecker::MaxIterations::new(4)),
                Box::new(PlainInit(Rng(init), np, d, true)),
                Box::new(PlainInit(Rng(init ^ 1), np, d, true)),
                Box::new(CalcW(calc, seen.clone(), asked.clone())),
            );
            o.set_post_velocity_calc(vec![Box::new(Clamp)]);
            o.find_min();
            let goals: Vec<(V, f64)> = log.borrow().iter().map(|e| if let Ev::Goal(a, b) = e { (a.clone(), *b) } else { unreachable!() }).collect();
            // reference records
            let mut vel = PlainInit(Rng(init ^ 1), np, d, true).get_velocity();
            let bestof = |h: &[(V, f64)], rev: bool| -> Vec<V> {
                h.iter().filter(|a| !h.iter().any(|b| if rev { before(a.1, b.1) } else { before(b.1, a.1) })).map(|a| a.0.clone()).collect()
            };
            for (c, (sws, p, out, raw, ask)) in seen.borrow().iter().enumerate() {
                let idx = p.idx.ok_or("unknown particle")?;
                let iter = c / np;
                let hist: Vec<(V, f64)> = (0..=iter).map(|t| goals[t * np + idx].clone()).collect();
                let upto = &goals[..(iter + 1) * np];
                let gb = match &sws.best { Some(b) => b.0.clone(), None => return Err("no best".into()) };
                let pbs = bestof(&hist, false);
                let x = &p.x;
                let v = &vel[idx];
                if out.len() != d {
                    return Err(format!("{} components in dimension {}", out.len(), d));
                }
                let mut ok = false;
                let mut detail = String::new();
                if kind < 3 {
                    let rs = f32s(raw);
                    if kind == 2 && (ask.is_empty() || ask.iter().any(|a| *a != sws.it)) {
                        return Err(format!("inertia asked for iterations {:?} at iteration {}", ask, sws.it));
                    }
                    if raw.len() != 2 * d {
                        return Err(format!("{} random factors for {} components", raw.len(), d));
                    }
                    for pb in &pbs {
                        let mut used = vec![false; rs.len()];
                        let mut all = true;
                        for i in 0..d {
                            let mut hit = None;
                            // expected order first, then any other pair
                            let mut cand: Vec<(usize, usize)> = vec![(2 * i, 2 * i + 1), (2 * i + 1, 2 * i), (i, d + i), (d + i, i)];
                            for a in 0..rs.len() { for b in 0..rs.len() { if a != b { cand.push((a, b)); } } }
                            for (a, b) in cand {
                                let (pp, pg) = if kind == 1 { (ph[0] + 3.0, ph[1] + 1.0) } else { (ph[0], ph[1]) };
                                let pull = pp * rs[a] * (pb[i] - x[i]) + pg * rs[b] * (gb[i] - x[i]);
                                let want = match kind {
                                    0 => v[i] + pull,
                                    1 => 2.0 * al / (pp + pg - 2.0) * (v[i] + pull),
                                    _ => (xi - 0.03125 * sws.it as f64) * v[i] + pull,
                                };
                                // a factor multiplying a zero distance may be any draw
                                if near(want, out[i]) && (!used[a] || pb[i] == x[i]) && (!used[b] || gb[i] == x[i]) {
                                    hit = Some((a, b));
                                    break;
                                }
                            }
                            match hit {
                                Some((a, b)) => {
                                    used[a] = true;
                                    used[b] = true;
                                }
                                None => {
                                    all = false;
                                    detail = format!("component {} of particle {} in iteration {} is {}: velocity {} position {} personal best {} global best {} draws {:?}", i, idx, iter, out[i], v[i], x[i], pb[i], gb[i], rs);
                                    break;
                                }
                            }
                        }
                        if all {
                            ok = true;
                            break;
                        }
                    }
                } else {
                    let rs = f64s(raw);
                    if raw.len() != 6 * d {
                        return Err(format!("{} random factors for {} components", raw.len(), d));
                    }
                    let pws = bestof(&hist, true);
                    let gws = bestof(upto, true);
                    // currently best and worst particles: agents at this moment
                    let cur: Vec<(V, f64)> = sws.agents.clone();
                    let (cbs, cws) = (bestof(&cur, false), bestof(&cur, true));
                    'search: for pb in &pbs { for pw in &pws { for gw in &gws { for cb in &cbs { for cw in &cws {
                        let mut all = true;
                        for i in 0..d {
                            let q = &rs[6 * i..6 * i + 6];
                            let t = [ph[0] * (pb[i] - x[i]), ph[1] * (cb[i] - x[i]), ph[2] * (gb[i] - x[i]), -ph[3] * (pw[i] - x[i]), -ph[4] * (cw[i] - x[i]), -ph[5] * (gw[i] - x[i])];
                            // the usual assignment first
                            let usual = [2usize, 1, 0, 5, 4, 3];
                            let val = |p: &[usize]| xi * (v[i] + (0..6).map(|k| t[k] * q[p[k]]).sum::<f64>());
                            if !near(val(&usual), out[i]) && !pm.iter().any(|p| near(val(p), out[i])) {
                                all = false;
                                detail = format!("component {} of particle {} in iteration {} is {}: velocity {} position {} terms {:?} draws {:?}", i, idx, iter, out[i], v[i], x[i], t, q);
                                break;
                            }
                        }
                        if all { ok = true; break 'search; }
                    } } } } }
                }
                if !ok {
                    return Err(detail);
                }
                vel[idx] = Clamp.correct_velocity(out.clone());
            }
            Ok(true)
        });
    }
}

pub fn c20(h: &mut H) {
    let n = h.n(300);
    for _ in 0..n {
        let w = h.r.real(-2., 2.);
        let it = h.r.few(0, 10000, 1 << 40);
        h.case("const", format!("ConstInertia({}) at {}", w, it), || {
            let mut c = ConstInertia::new(w);
            if c.get(it) == w && c.get(0) == w && c.get(it + 1) == w { Ok(true) } else { Err(format!("{} {} {}", c.get(it), c.get(0), c.get(it + 1))) }
        });
        let a = h.r.pick(&[0.4, 0.0, -0.5, 0.9, 0.25]);
        let b = a + h.r.pick(&[0.0, 0.5, 1.0, 0.125, 2.5]);
        let (a, b) = if h.r.chance(20) { (b, a) } else { (a, b) };
        let t = h.r.pick(&[1usize, 2, 3, 7, 10, 100, 1000, 4096, 255, 256, 300, 70_000, 1 << 24, (1 << 24) + 77, 1 << 33]);
        h.case("linear", format!("LinearInertia(w_min {}, w_max {}, t_max {})", a, b, t), || {
            let mut l = LinearInertia::new(a, b, t);
            let mut prev = f64::INFINITY;
            for k in (0..=t).step_by((t / 50).max(1)).chain([t]) {
                let g = l.get(k);
                let want = b - (b - a) * (k as f64) / (t as f64);
                if (g - want).abs() > 1e-9 {
                    return Err(format!("weight {} at iteration {}, expected {}", g, k, want));
                }
                if a <= b && (g > prev + 1e-12 || g > b + 1e-12 || g < a - 1e-12) {
                    return Err(format!("weight {} at iteration {} after {}", g, k, prev));
                }
                prev = g;
            }
            Ok(a != b)
        });
    }
    // interleaved and repeated reads
    let n = h.n(50);
    for _ in 0..n {
        let t = h.r.few(1, 50, 200_000);
        let ks: Vec<usize> = (0..10).map(|_| h.r.us(0, t)).collect();
        h.case("linear-history", format!("LinearInertia(0.25, 1.25, {}) asked at {:?}", t, ks), || {
            let mut l = LinearInertia::new(0.25f64, 1.25, t);
            for k in &ks {
                let g = l.get(*k);
                let want = 1.25 - (*k as f64) / (t as f64);
                if (g - want).abs() > 1e-9 { return Err(format!("weight {} at iteration {}, expected {}", g, k, want)); }
            }
            Ok(true)
        });
    }
}

/// looks at the same large swarm through every accessor
struct Views(Rc<RefCell<Vec<String>>>, bool);
impl VelocityCalculator<f64> for Views {
    fn calc_new_velocity(&mut self, s: &Swarm<f64>, p: &Particle<f64>) -> V {
        if !self.1 {
            self.1 = true;
            let n = s.len();
            let a: Vec<V> = s.get_agents().iter().map(|i| i.get_parameter().clone()).collect();
            if a.len() != n || a.iter().enumerate().any(|(i, x)| x[0] != i as f64) {
                self.0.borrow_mut().push(format!("len() is {}, get_agents() shows {}, the first out of place is {:?}", n, a.len(), a.iter().enumerate().find(|(i, x)| x[0] != *i as f64)));
            }
        }
        vec![0.0; p.get_parameter().len()]
    }
}
struct Given(usize);
impl CoordinatesInitializer<f64> for Given {
    fn get_coordinates(&mut self) -> Vec<V> {
        (0..self.0).map(|i| vec![i as f64]).collect()
    }
}
pub fn large(h: &mut H) {
    for np in [1025usize, 5000, 70001].iter() {
        h.case("large-swarm", format!("{} particles", np), || {
            let bad = Rc::new(RefCell::new(vec![]));
            let log: Log = Rc::new(RefCell::new(vec![]));
            let mut o = ParticleSwarmOptimizer::new(
                Box::new(GoalC(log.clone(), Rng(5), 1)),
                Box::new(optlib::tools::stopchecker::MaxIterations::new(1)),
                Box::new(Given(*np)),
                Box::new(optlib::particleswarm::initializing::ZeroVelocityInitializer::new(1, *np)),
                Box::new(Views(bad.clone(), false)),
            );
            o.find_min();
            let last = o.find_min().is_some();
            let b = bad.borrow();
            if b.is_empty() && last { Ok(true) } else { Err(format!("{:?}", b)) }
        });
    }
}
