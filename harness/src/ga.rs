//! the genetic algorithm with recording components, replayed against a reference
use crate::h::*;
use optlib::genetic::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::StopChecker;
use optlib::*;
use std::cell::RefCell;
use std::rc::Rc;

pub type V = Vec<f64>;
#[derive(Clone, Debug)]
pub struct Ind {
    pub c: V,
    pub f: f64,
    pub a: bool,
}
impl Ind {
    fn eq(&self, o: &Ind) -> bool {
        vsame(&self.c, &o.c) && same(self.f, o.f) && self.a == o.a
    }
}
#[derive(Clone, Debug)]
pub struct Pop {
    pub it: usize,
    pub best: Option<(V, f64)>,
    pub worst: Option<(V, f64)>,
    pub inds: Vec<Ind>,
    pub bad: Option<String>,
}
#[derive(Clone, Debug)]
pub struct St {
    pub it: usize,
    pub best: Option<(V, f64)>,
}
#[derive(Clone, Debug)]
pub enum Ev {
    Begin(bool),
    End(Option<(V, f64)>),
    Create(u32, Vec<V>),
    Goal(V, f64),
    Pair(u32, Pop, Vec<Vec<usize>>),
    Cross(u32, Vec<V>, Vec<V>),
    Mut(u32, V, V),
    Pre(u32, usize, Pop, Vec<V>, Vec<V>),
    Sel(u32, usize, Pop, Pop),
    Stop(u32, St, bool),
    Log(u32, usize, char, St),
    Set(&'static str, u32, usize),
}
pub type Log = Rc<RefCell<Vec<Ev>>>;

pub fn snap(p: &Population<V>) -> Pop {
    let inds: Vec<Ind> = p.iter().map(|i| Ind { c: i.get_chromosomes().clone(), f: i.get_fitness(), a: i.is_alive() }).collect();
    let mut bad = None;
    if p.len() != inds.len() {
        bad = Some(format!("len() is {} for {} individuals", p.len(), inds.len()));
    }
    let alive = inds.iter().filter(|i| i.a).count();
    if p.len_alive() != alive {
        bad = Some(format!("len_alive() is {} for {} alive", p.len_alive(), alive));
    }
    for (n, i) in inds.iter().enumerate() {
        let x = &p[n];
        let y = Ind { c: x.get_chromosomes().clone(), f: x.get_fitness(), a: x.is_alive() };
        if !y.eq(i) || !vsame(x.get_parameter(), &i.c) || !same(x.get_goal(), i.f) {
            bad = Some(format!("index {} reads {:?}, iterator {:?}, goal {}, parameter {:?}", n, y, i, x.get_goal(), x.get_parameter()));
        }
        let z = x.clone();
        let z = Ind { c: z.get_chromosomes().clone(), f: z.get_fitness(), a: z.is_alive() };
        if !z.eq(i) {
            bad = Some(format!("clone of {:?} is {:?}", i, z));
        }
    }
    let ag = p.get_agents();
    if ag.len() != inds.len() || ag.iter().zip(&inds).any(|(x, i)| !vsame(x.get_chromosomes(), &i.c) || !same(x.get_fitness(), i.f) || x.is_alive() != i.a) {
        bad = Some("get_agents() does not list the individuals in order".into());
    }
    let it = p.get_iteration();
    let s: &dyn AlgorithmState<V> = p;
    if s.get_iteration() != it {
        bad = Some("two iteration counters".into());
    }
    let best = p.get_best().as_ref().map(|i| (i.get_chromosomes().clone(), i.get_fitness()));
    let worst = p.get_worst().as_ref().map(|i| (i.get_chromosomes().clone(), i.get_fitness()));
    let bs = p.get_best_solution();
    if !osame(&bs, &best) {
        bad = Some(format!("get_best_solution {:?} get_best {:?}", bs, best));
    }
    Pop { it, best, worst, inds, bad }
}
pub fn osame(a: &Option<(V, f64)>, b: &Option<(V, f64)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => vsame(&x.0, &y.0) && same(x.1, y.1),
        _ => false,
    }
}
fn st(s: &dyn AlgorithmState<V>) -> St {
    St { it: s.get_iteration(), best: s.get_best_solution() }
}

pub const PAL: [f64; 20] = [1.0, 1.0000000000000002, 1.0000001, 0.99999999999, 16777217.0, 16777216.0, 1e-13, 2.0, 2.0, -1.0, 0.0, -0.5, 3.25, 1e300, -1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 1e-300];

pub struct GoalC(pub Log, pub Rng, pub u64);
impl Goal<V> for GoalC {
    fn get(&mut self, x: &V) -> f64 {
        // mode 0: palette with everything; 1: finite only; 2: no minus infinity; 3: an impure goal
        let v = match self.2 {
            0 => self.1.pick(&PAL),
            1 => self.1.int(-20, 20) as f64,
            2 => {
                let v = self.1.pick(&PAL);
                if v == f64::NEG_INFINITY { f64::NAN } else { v }
            }
            4 => if self.1.chance(70) { f64::NAN } else { self.1.pick(&PAL) },
            _ => x.iter().sum::<f64>(),
        };
        self.0.borrow_mut().push(Ev::Goal(x.clone(), v));
        v
    }
}
/// a point: mostly two small numbers, now and then any length and any values
fn gene(r: &mut Rng) -> V {
    if r.chance(88) {
        return vec![r.real(-10., 10.), r.int(-5, 5) as f64];
    }
    (0..r.few(0, 5, 90)).map(|_| match r.us(0, 5) { 0 => r.pick(&PAL), 1 => f64::from_bits(r.next()), 2 => -0.0, _ => r.int(-2, 2) as f64 }).collect()
}
pub struct CreatorC(pub Log, pub u32, pub Rng, pub usize);
impl Creator<V> for CreatorC {
    fn create(&mut self) -> Vec<V> {
        let n = self.3;
        let n = self.2.us(if n > 1 { 1 } else { 0 }, n);
        let r: Vec<V> = (0..n).map(|_| gene(&mut self.2)).collect();
        self.0.borrow_mut().push(Ev::Create(self.1, r.clone()));
        r
    }
}
pub struct PairC(pub Log, pub u32, pub Rng);
impl Pairing<V> for PairC {
    fn get_pairs(&mut self, p: &Population<V>) -> Vec<Vec<usize>> {
        let s = snap(p);
        let mut f = vec![];
        if s.inds.len() > 0 {
            for _ in 0..self.2.few(0, 4, 120) {
                let k = self.2.us(0, 3);
                f.push((0..k).map(|_| self.2.us(0, s.inds.len() - 1)).collect::<Vec<_>>());
            }
        }
        self.0.borrow_mut().push(Ev::Pair(self.1, s, f.clone()));
        f
    }
}
pub struct CrossC(pub Log, pub u32, pub Rng);
impl Cross<V> for CrossC {
    fn cross(&mut self, parents: &[&V]) -> Vec<V> {
        let k = self.2.few(0, 2, 12);
        let r: Vec<V> = (0..k).map(|_| gene(&mut self.2)).collect();
        self.0.borrow_mut().push(Ev::Cross(self.1, parents.iter().map(|x| (*x).clone()).collect(), r.clone()));
        r
    }
}
pub struct MutC(pub Log, pub u32, pub Rng);
impl Mutation<V> for MutC {
    fn mutation(&mut self, x: &V) -> V {
        let mut r = x.clone();
        if self.2.chance(60) && !r.is_empty() {
            r[0] += self.2.real(-1., 1.);
        }
        self.0.borrow_mut().push(Ev::Mut(self.1, x.clone(), r.clone()));
        r
    }
}
pub struct PreC(pub Log, pub u32, pub usize, pub Rng);
impl PreBirth<V> for PreC {
    fn pre_birth(&mut self, p: &Population<V>, x: &mut Vec<V>) {
        let s = snap(p);
        let b = x.clone();
        match self.3.us(0, 4) {
            0 => x.reverse(),
            1 => {
                if !x.is_empty() {
                    let i = self.3.us(0, x.len() - 1);
                    x.remove(i);
                }
            }
            2 => x.push(vec![self.3.real(-9., 9.), 0.5]),
            3 => {
                for v in x.iter_mut().filter(|v| v.len() > 1) {
                    v[1] += 1.0;
                }
            }
            _ => (),
        }
        self.0.borrow_mut().push(Ev::Pre(self.1, self.2, s, b, x.clone()));
    }
}
pub struct SelC(pub Log, pub u32, pub usize, pub Rng, pub u64);
impl Selection<V> for SelC {
    fn kill(&mut self, p: &mut Population<V>) {
        let b = snap(p);
        let mode = self.3.us(0, 5);
        let pr = match mode { 0 => 0, 1 => 100, _ => self.4 };
        let via_index = self.3.chance(50);
        let n = p.len();
        let mut killed = vec![];
        if via_index {
            for i in 0..n {
                killed.push(self.3.chance(pr));
                if killed[i] {
                    p[i].kill();
                }
            }
        } else {
            for i in p.iter_mut() {
                killed.push(self.3.chance(pr));
                if *killed.last().unwrap() {
                    i.kill();
                }
            }
        }
        let mut a = snap(p);
        if killed.len() != n || a.inds.len() != n || (0..n).any(|i| a.inds[i].a != (b.inds[i].a && !killed[i]) || !vsame(&a.inds[i].c, &b.inds[i].c) || !same(a.inds[i].f, b.inds[i].f)) {
            a.bad = Some(format!("killed {:?} through {} in {:?}, which left {:?}", killed, if via_index { "the index" } else { "iter_mut()" }, b.inds, a.inds));
        }
        self.0.borrow_mut().push(Ev::Sel(self.1, self.2, b, a));
    }
}
/// records around a selection of the library
pub struct SelW(pub Log, pub u32, pub usize, pub Box<dyn Selection<V>>);
impl Selection<V> for SelW {
    fn kill(&mut self, p: &mut Population<V>) {
        let b = snap(p);
        self.3.kill(p);
        let a = snap(p);
        self.0.borrow_mut().push(Ev::Sel(self.1, self.2, b, a));
    }
}
pub struct PreW(pub Log, pub u32, pub usize, pub Box<dyn PreBirth<V>>);
impl PreBirth<V> for PreW {
    fn pre_birth(&mut self, p: &Population<V>, x: &mut Vec<V>) {
        let s = snap(p);
        let b = x.clone();
        self.3.pre_birth(p, x);
        self.0.borrow_mut().push(Ev::Pre(self.1, self.2, s, b, x.clone()));
    }
}
pub struct StopC(pub Log, pub u32, pub Rng, pub u64, pub usize);
impl StopChecker<V> for StopC {
    fn can_stop(&mut self, s: &dyn AlgorithmState<V>) -> bool {
        // bounded number of generations per run
        let a = if self.4 == 0 { true } else { self.2.chance(self.3) };
        if a && self.3 == 0 { self.3 = 30; }
        self.4 = if a { 6 } else { self.4.saturating_sub(1) };
        self.0.borrow_mut().push(Ev::Stop(self.1, st(s), a));
        a
    }
}
pub struct LogC(pub Log, pub u32, pub usize);
impl Logger<V> for LogC {
    fn start(&mut self, s: &dyn AlgorithmState<V>) {
        self.0.borrow_mut().push(Ev::Log(self.1, self.2, 's', st(s)));
    }
    fn resume(&mut self, s: &dyn AlgorithmState<V>) {
        self.0.borrow_mut().push(Ev::Log(self.1, self.2, 'r', st(s)));
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<V>) {
        self.0.borrow_mut().push(Ev::Log(self.1, self.2, 'n', st(s)));
    }
    fn finish(&mut self, s: &dyn AlgorithmState<V>) {
        self.0.borrow_mut().push(Ev::Log(self.1, self.2, 'f', st(s)));
    }
}

pub struct Errs(pub Vec<(&'static [&'static str], String)>);
impl Errs {
    pub fn new() -> Errs {
        Errs(vec![])
    }
    pub fn e(&mut self, p: &'static [&'static str], m: String) {
        self.0.push((p, m));
    }
    pub fn of(&self, pid: &str) -> R {
        for (p, m) in &self.0 {
            if p.contains(&pid) {
                return Err(m.clone());
            }
        }
        Ok(true)
    }
}

#[derive(Clone)]
pub struct Conf {
    pub ids: std::collections::HashMap<&'static str, (u32, usize)>,
}

fn fresh_extremes(inds: &[Ind], prev: (&Option<(V, f64)>, &Option<(V, f64)>), got: (&Option<(V, f64)>, &Option<(V, f64)>), e: &mut Errs, at: &str) {
    if inds.is_empty() {
        if !osame(prev.0, got.0) || !osame(prev.1, got.1) {
            e.e(&["C02"], format!("{}: no member is left but best/worst changed from {:?} to {:?}", at, prev, got));
        }
        return;
    }
    for (k, g) in [(0, got.0), (1, got.1)] {
        let nm = if k == 0 { "best" } else { "worst" };
        match g {
            None => e.e(&["C02"], format!("{}: no {} although there are members", at, nm)),
            Some((c, f)) => {
                if !inds.iter().any(|i| vsame(&i.c, c) && same(i.f, *f)) {
                    e.e(&["C02", "C01"], format!("{}: {} {:?} is not a member of {:?}", at, nm, g, inds));
                }
                for i in inds {
                    let better = if k == 0 { i.f < *f } else { i.f > *f };
                    if better || (f.is_nan() && !i.f.is_nan()) {
                        e.e(&["C02"], format!("{}: {} is {} but there is {}", at, nm, f, i.f));
                        break;
                    }
                }
            }
        }
    }
}

fn ids_in_order(evs: &[&Ev], what: char, conf: &Conf) -> Result<(), String> {
    let (id, n) = conf.ids["loggers"];
    let got: Vec<(u32, usize)> = evs.iter().filter_map(|e| if let Ev::Log(i, k, c, _) = e { if *c == what { Some((*i, *k)) } else { None } } else { None }).collect();
    let want: Vec<(u32, usize)> = (0..n).map(|k| (id, k)).collect();
    if got != want { Err(format!("loggers that heard '{}': {:?}, expected {:?}", what, got, want)) } else { Ok(()) }
}

/// replay the recorded events against the protocol
pub fn walk(evs: &[Ev], conf0: &Conf) -> Errs {
    let mut e = Errs::new();
    let mut conf = conf0.clone();
    let mut pop: Vec<Ind> = vec![];
    let mut best: Option<(V, f64)> = None;
    let mut worst: Option<(V, f64)> = None;
    let mut worst_known = true;
    let mut it = 0usize;
    let mut honest: Vec<(V, f64)> = vec![];
    let mut i = 0;
    // every view of a population is faithful, and every reported solution honest
    for ev in evs {
        let mut pops: Vec<&Pop> = vec![];
        match ev {
            Ev::Goal(x, v) => honest.push((x.clone(), *v)),
            Ev::Pair(_, p, _) => pops.push(p),
            Ev::Pre(_, _, p, _, _) => pops.push(p),
            Ev::Sel(_, _, a, b) => { pops.push(a); pops.push(b); }
            Ev::End(Some(r)) => {
                if !honest.iter().any(|h| vsame(&h.0, &r.0) && same(h.1, r.1)) {
                    e.e(&["C01"], format!("returned solution {:?} was never evaluated with that value", r));
                }
            }
            Ev::Log(_, _, _, s) | Ev::Stop(_, s, _) => {
                if let Some(r) = &s.best {
                    if !honest.iter().any(|h| vsame(&h.0, &r.0) && same(h.1, r.1)) {
                        e.e(&["C01"], format!("reported best {:?} was never evaluated with that value", r));
                    }
                }
            }
            _ => (),
        }
        for p in pops {
            if let Some(b) = &p.bad {
                e.e(&["C28"], b.clone());
            }
            for x in &p.inds {
                if !honest.iter().any(|h| vsame(&h.0, &x.c) && same(h.1, x.f)) {
                    e.e(&["C01"], format!("individual {:?} has a fitness the goal never returned for it", x));
                }
            }
        }
    }
    while i < evs.len() {
        match &evs[i] {
            Ev::Set(w, id, n) => {
                conf.ids.insert(w, (*id, *n));
                i += 1;
                continue;
            }
            Ev::Begin(_) => (),
            x => {
                e.e(&["C12"], format!("event outside a run: {:?}", x));
                i += 1;
                continue;
            }
        }
        let freshrun = matches!(evs[i], Ev::Begin(true));
        let mut j = i + 1;
        while !matches!(evs[j], Ev::End(_)) {
            j += 1;
        }
        let seg: Vec<&Ev> = evs[i + 1..j].iter().collect();
        let result = if let Ev::End(r) = &evs[j] { r.clone() } else { None };
        i = j + 1;
        // who answered
        for ev in &seg {
            let bad = match ev {
                Ev::Create(id, _) => *id != conf.ids["creator"].0,
                Ev::Pair(id, ..) => *id != conf.ids["pairing"].0,
                Ev::Cross(id, ..) => *id != conf.ids["cross"].0,
                Ev::Mut(id, ..) => *id != conf.ids["mutation"].0,
                Ev::Pre(id, ..) => *id != conf.ids["pre_births"].0,
                Ev::Sel(id, ..) => *id != conf.ids["selections"].0,
                Ev::Stop(id, ..) => *id != conf.ids["stop_checker"].0,
                Ev::Log(id, ..) => *id != conf.ids["loggers"].0,
                _ => false,
            };
            if bad {
                e.e(&["C28"], format!("a component that was replaced (or never set) was used: {:?}; in force: {:?}", ev, conf.ids));
            }
        }
        let stops: Vec<usize> = (0..seg.len()).filter(|k| matches!(seg[*k], Ev::Stop(..))).collect();
        if stops.is_empty() {
            e.e(&["C12"], "the stop checker was never asked".into());
            return e;
        }
        let prelude = &seg[..stops[0]];
        let created: Vec<&Vec<V>> = prelude.iter().filter_map(|x| if let Ev::Create(_, v) = x { Some(v) } else { None }).collect();
        let goals: Vec<(V, f64)> = prelude.iter().filter_map(|x| if let Ev::Goal(a, b) = x { Some((a.clone(), *b)) } else { None }).collect();
        if freshrun {
            if created.len() != 1 {
                e.e(&["C12"], format!("the creator was called {} times in a fresh run", created.len()));
                return e;
            }
            if goals.len() != created[0].len() || goals.iter().zip(created[0]).any(|(g, c)| !vsame(&g.0, c)) {
                e.e(&["C01", "C12"], format!("initial evaluations {:?} for created {:?}", goals, created[0]));
                return e;
            }
            pop = goals.iter().map(|g| Ind { c: g.0.clone(), f: g.1, a: true }).collect();
            it = 0;
            best = None;
            worst = None;
            worst_known = false;
            let last_goal = prelude.iter().rposition(|x| matches!(x, Ev::Goal(..)));
            let first_log = prelude.iter().position(|x| matches!(x, Ev::Log(..)));
            if let (Some(a), Some(b)) = (last_goal, first_log) {
                if a > b {
                    e.e(&["C12"], "a logger was started before the initial population was evaluated".into());
                }
            }
            if let Err(m) = ids_in_order(prelude, 's', &conf) {
                e.e(&["C12"], m);
            }
            for k in 0..conf.ids["loggers"].1 {
                let s = prelude.iter().position(|x| matches!(x, Ev::Log(_, kk, 's', _) if *kk == k));
                let r = prelude.iter().position(|x| matches!(x, Ev::Log(_, kk, 'r', _) if *kk == k));
                if s > r {
                    e.e(&["C12"], "resume announced before start".into());
                }
            }
        } else {
            if !created.is_empty() || !goals.is_empty() {
                e.e(&["C12"], "a continuation created or evaluated individuals before the first generation".into());
                return e;
            }
            if let Err(m) = ids_in_order(prelude, 's', &conf).err().filter(|_| prelude.iter().any(|x| matches!(x, Ev::Log(_, _, 's', _)))).map_or(Ok(()), |_: String| Err("a continuation announced start".to_string())) {
                e.e(&["C12"], m);
            }
        }
        if let Err(m) = ids_in_order(prelude, 'r', &conf) {
            e.e(&["C12"], m);
        }
        if prelude.iter().any(|x| !matches!(x, Ev::Log(_, _, 's', _) | Ev::Log(_, _, 'r', _) | Ev::Create(..) | Ev::Goal(..))) {
            e.e(&["C12"], format!("unexpected activity before the first stop check: {:?}", prelude));
        }
        // the reported state before the first generation
        let s0 = if let Ev::Stop(_, s, _) = seg[stops[0]] { s.clone() } else { unreachable!() };
        if freshrun {
            fresh_best(&pop, &s0.best, &mut e, "after initialisation");
            best = s0.best.clone();
        }
        for x in prelude {
            if let Ev::Log(_, _, w, s) = x {
                if s.it != it {
                    e.e(&["C12"], format!("'{}' announced at iteration {} instead of {}", w, s.it, it));
                }
                if !osame(&s.best, &best) {
                    e.e(&["C12", "C02"], format!("'{}' announced with best {:?} instead of {:?}", w, s.best, best));
                }
            }
        }
        for (k, sp) in stops.iter().enumerate() {
            let (s, ans) = if let Ev::Stop(_, s, a) = seg[*sp] { (s, *a) } else { unreachable!() };
            if s.it != it {
                e.e(&["C12"], format!("stop check at iteration {} instead of {}", s.it, it));
            }
            if !osame(&s.best, &best) {
                e.e(&["C02", "C12"], format!("stop check sees best {:?} instead of {:?}", s.best, best));
            }
            let end = if k + 1 < stops.len() { stops[k + 1] } else { seg.len() };
            let part = &seg[sp + 1..end];
            if ans {
                if k + 1 != stops.len() {
                    e.e(&["C12"], "the run went on after the stop checker said stop".into());
                    return e;
                }
                if let Err(m) = ids_in_order(part, 'f', &conf) {
                    e.e(&["C12"], m);
                }
                if part.iter().any(|x| !matches!(x, Ev::Log(_, _, 'f', _))) {
                    e.e(&["C12"], format!("unexpected activity after stop: {:?}", part));
                }
                for x in part {
                    if let Ev::Log(_, _, _, s) = x {
                        if s.it != it || !osame(&s.best, &best) {
                            e.e(&["C12"], format!("finish announced with {:?}, expected iteration {} best {:?}", s, it, best));
                        }
                    }
                }
                if !osame(&result, &best) {
                    e.e(&["C12", "C01"], format!("returned {:?}, reported best {:?}", result, best));
                }
                continue;
            }
            if k + 1 == stops.len() {
                e.e(&["C12"], "the run ended without a stop answer".into());
                return e;
            }
            // one generation
            let pairs: Vec<(&Pop, &Vec<Vec<usize>>)> = part.iter().filter_map(|x| if let Ev::Pair(_, p, f) = x { Some((p, f)) } else { None }).collect();
            if pairs.len() != 1 {
                e.e(&["C12", "C13"], format!("pairing was asked {} times in one generation", pairs.len()));
                return e;
            }
            let seen = pairs[0].0;
            if seen.it != it {
                e.e(&["C12"], format!("pairing sees iteration {} instead of {}", seen.it, it));
            }
            if !osame(&seen.best, &best) {
                e.e(&["C02"], format!("pairing sees best {:?} instead of {:?}", seen.best, best));
            }
            if !worst_known {
                if let Some((c, f)) = &seen.worst {
                    if !pop.is_empty() && (!pop.iter().any(|i| vsame(&i.c, c) && same(i.f, *f)) || pop.iter().any(|i| i.f > *f || (f.is_nan() && !i.f.is_nan()))) {
                        e.e(&["C02"], format!("after initialisation: worst {:?} of {:?}", seen.worst, pop));
                    }
                }
                if pop.is_empty() && seen.worst.is_some() {
                    e.e(&["C12", "C02"], format!("worst {:?} of an earlier run survived the restart", seen.worst));
                }
                worst = seen.worst.clone();
                worst_known = true;
            }
            if !osame(&seen.worst, &worst) {
                e.e(&["C02"], format!("pairing sees worst {:?} instead of {:?}", seen.worst, worst));
            }
            if seen.inds.len() != pop.len() || seen.inds.iter().zip(&pop).any(|(a, b)| !a.eq(b)) {
                e.e(&["C13", "C01"], format!("pairing sees {:?}, expected population {:?}", seen.inds, pop));
                return e;
            }
            let families = pairs[0].1;
            let crosses: Vec<(&Vec<V>, &Vec<V>)> = part.iter().filter_map(|x| if let Ev::Cross(_, p, f) = x { Some((p, f)) } else { None }).collect();
            if crosses.len() != families.len() {
                e.e(&["C13"], format!("{} crossings for {} families", crosses.len(), families.len()));
                return e;
            }
            let mut children: Vec<V> = vec![];
            for (f, (p, ch)) in families.iter().zip(&crosses) {
                let want: Vec<&V> = f.iter().map(|x| &pop[*x].c).collect();
                if want.len() != p.len() || want.iter().zip(p.iter()).any(|(a, b)| !vsame(a, b)) {
                    e.e(&["C13"], format!("family {:?} crossed with {:?} instead of {:?}", f, p, want));
                }
                children.extend(ch.iter().cloned());
            }
            let muts: Vec<(&V, &V)> = part.iter().filter_map(|x| if let Ev::Mut(_, p, f) = x { Some((p, f)) } else { None }).collect();
            if muts.len() != children.len() || muts.iter().zip(&children).any(|(m, c)| !vsame(m.0, c)) {
                e.e(&["C13"], format!("mutated {:?} for children {:?}", muts, children));
                return e;
            }
            let mut list: Vec<V> = muts.iter().map(|m| m.1.clone()).collect();
            let pres: Vec<(usize, &Pop, &Vec<V>, &Vec<V>)> = part.iter().filter_map(|x| if let Ev::Pre(_, k, p, a, b) = x { Some((*k, p, a, b)) } else { None }).collect();
            if pres.len() != conf.ids["pre_births"].1 || pres.iter().enumerate().any(|(n, p)| n != p.0) {
                e.e(&["C13"], format!("pre-birth steps applied: {:?}", pres.iter().map(|p| p.0).collect::<Vec<_>>()));
                return e;
            }
            for (_, p, a, b) in &pres {
                if p.inds.len() != pop.len() || p.inds.iter().zip(&pop).any(|(a, b)| !a.eq(b)) {
                    e.e(&["C13"], format!("pre-birth sees {:?}, expected {:?}", p.inds, pop));
                }
                if a.len() != list.len() || a.iter().zip(&list).any(|(x, y)| !vsame(x, y)) {
                    e.e(&["C13"], format!("pre-birth got {:?}, expected {:?}", a, list));
                    return e;
                }
                list = (*b).clone();
            }
            let goals: Vec<(V, f64)> = part.iter().filter_map(|x| if let Ev::Goal(a, b) = x { Some((a.clone(), *b)) } else { None }).collect();
            if goals.len() != list.len() || goals.iter().zip(&list).any(|(g, c)| !vsame(&g.0, c)) {
                e.e(&["C13", "C01"], format!("evaluated {:?} for offspring {:?}", goals, list));
                return e;
            }
            for g in &goals {
                pop.push(Ind { c: g.0.clone(), f: g.1, a: true });
            }
            let sels: Vec<(usize, &Pop, &Pop)> = part.iter().filter_map(|x| if let Ev::Sel(_, k, a, b) = x { Some((*k, a, b)) } else { None }).collect();
            if sels.len() != conf.ids["selections"].1 || sels.iter().enumerate().any(|(n, p)| n != p.0) {
                e.e(&["C13"], format!("selections applied: {:?}", sels.iter().map(|p| p.0).collect::<Vec<_>>()));
                return e;
            }
            for (_, a, b) in &sels {
                if a.inds.len() != pop.len() || a.inds.iter().zip(&pop).any(|(x, y)| !x.eq(y)) {
                    e.e(&["C13", "C01"], format!("a selection sees {:?}, expected {:?}", a.inds, pop));
                    return e;
                }
                pop = b.inds.clone();
            }
            pop.retain(|x| x.a);
            it += 1;
            // the order of the phases
            let rank = |x: &Ev| match x {
                Ev::Pair(..) => 0,
                Ev::Cross(..) | Ev::Mut(..) => 1,
                Ev::Pre(..) => 2,
                Ev::Goal(..) => 3,
                Ev::Sel(..) => 4,
                _ => 5,
            };
            for w in part.windows(2) {
                if rank(w[0]) > rank(w[1]) {
                    e.e(&["C13", "C12"], format!("phases out of order: {:?} before {:?}", w[0], w[1]));
                    break;
                }
            }
            if let Err(m) = ids_in_order(part, 'n', &conf) {
                e.e(&["C12"], m);
            }
            if part.iter().any(|x| matches!(x, Ev::Create(..) | Ev::Log(_, _, 's', _) | Ev::Log(_, _, 'r', _) | Ev::Log(_, _, 'f', _))) {
                e.e(&["C12"], format!("unexpected activity in a generation: {:?}", part));
            }
            // the new extremes are seen by the loggers and the next stop check; the worst by the next pairing
            let next = if let Ev::Stop(_, s, _) = seg[stops[k + 1]] { s.clone() } else { unreachable!() };
            if pop.is_empty() {
                if !osame(&best, &next.best) {
                    e.e(&["C02"], format!("no member is left but best changed from {:?} to {:?}", best, next.best));
                }
            } else {
                fresh_best(&pop, &next.best, &mut e, &format!("generation {}", it));
            }
            best = next.best.clone();
            for x in part {
                if let Ev::Log(_, _, 'n', s) = x {
                    if s.it != it {
                        e.e(&["C12"], format!("generation announced with iteration {} instead of {}", s.it, it));
                    }
                    if !osame(&s.best, &best) {
                        e.e(&["C12", "C02"], format!("generation announced with best {:?}, the new best is {:?}", s.best, best));
                    }
                }
            }
            let np = seg[stops[k + 1]..].iter().find_map(|x| if let Ev::Pair(_, p, _) = x { Some(p) } else { None });
            let np = if np.is_some() { np } else { None };
            if let Some(p) = np {
                fresh_extremes(&pop, (&best, &worst), (&p.best, &p.worst), &mut e, &format!("generation {}", it));
                worst = p.worst.clone();
            } else if !pop.is_empty() {
                // not observed before the end of this run: read it at the next pairing
                worst_known = false;
            }
        }
    }
    e
}
fn fresh_best(inds: &[Ind], got: &Option<(V, f64)>, e: &mut Errs, at: &str) {
    match got {
        // extremes are only promised after a completed generation
        None => (),
        Some((c, f)) => {
            if !inds.iter().any(|i| vsame(&i.c, c) && same(i.f, *f)) {
                e.e(&["C02", "C12"], format!("{}: best {:?} is not a member of {:?}", at, got, inds));
            }
            if inds.iter().any(|i| i.f < *f || (f.is_nan() && !i.f.is_nan())) {
                e.e(&["C02"], format!("{}: best is {} among {:?}", at, f, inds.iter().map(|i| i.f).collect::<Vec<_>>()));
            }
        }
    }
}

pub struct Plan {
    pub seed: u64,
    pub ops: Vec<u8>,
}

/// a random scenario with recording components; returns the events and the configuration
pub fn scenario(seed: u64, setters: bool) -> (Vec<Ev>, Conf) {
    let log: Log = Rc::new(RefCell::new(vec![]));
    let mut r = Rng(seed);
    let mode = r.int(0, 4) as u64;
    let sub = |r: &mut Rng| Rng(r.next());
    let (npre, nsel, nlog) = (r.us(0, 3), r.us(0, 3), r.us(0, 3));
    let pr = r.pick(&[20u64, 40, 60]);
    let mut conf = Conf { ids: Default::default() };
    for (w, n) in [("creator", 1), ("pairing", 1), ("cross", 1), ("mutation", 1), ("pre_births", npre), ("selections", nsel), ("stop_checker", 1), ("loggers", 0)] {
        conf.ids.insert(w, (1, n));
    }
    let np = if r.us(0, if setters { 600 } else { 2000 }) == 0 { r.us(1000, 3000) } else { r.few(0, 8, 300) };
    let long = nsel > 0 && np < 4 && pr == 60 && r.chance(10);
    let (sp, sb) = if long { (0, 300) } else { (30, 6) };
    let pres = |id: u32, n: usize, r: &mut Rng| -> Vec<Box<dyn PreBirth<V>>> { (0..n).map(|k| Box::new(PreC(log.clone(), id, k, Rng(r.next()))) as Box<dyn PreBirth<V>>).collect() };
    let sels = |id: u32, n: usize, r: &mut Rng| -> Vec<Box<dyn Selection<V>>> { (0..n).map(|k| Box::new(SelC(log.clone(), id, k, Rng(r.next()), pr)) as Box<dyn Selection<V>>).collect() };
    let logs = |id: u32, n: usize| -> Vec<Box<dyn Logger<V>>> { (0..n).map(|k| Box::new(LogC(log.clone(), id, k)) as Box<dyn Logger<V>>).collect() };
    let mut o = GeneticOptimizer::new(
        Box::new(GoalC(log.clone(), sub(&mut r), mode)),
        Box::new(StopC(log.clone(), 1, sub(&mut r), sp, sb)),
        Box::new(CreatorC(log.clone(), 1, sub(&mut r), np)),
        Box::new(PairC(log.clone(), 1, sub(&mut r))),
        Box::new(CrossC(log.clone(), 1, sub(&mut r))),
        Box::new(MutC(log.clone(), 1, sub(&mut r))),
        sels(1, nsel, &mut r),
        pres(1, npre, &mut r),
    );
    o.set_loggers(logs(1, nlog));
    log.borrow_mut().push(Ev::Set("loggers", 1, nlog));
    let ops = r.us(1, 4);
    let mut id = 1u32;
    for k in 0..ops {
        if setters || r.chance(15) {
            for _ in 0..r.us(0, 3) {
                id += 1;
                let n = r.us(0, 3);
                let w = match r.us(0, 6) {
                    0 => { o.set_loggers(logs(id, n)); ("loggers", n) }
                    1 => { o.set_pairing(Box::new(PairC(log.clone(), id, sub(&mut r)))); ("pairing", 1) }
                    2 => { o.set_cross(Box::new(CrossC(log.clone(), id, sub(&mut r)))); ("cross", 1) }
                    3 => { o.set_mutation(Box::new(MutC(log.clone(), id, sub(&mut r)))); ("mutation", 1) }
                    4 => { o.set_selection(sels(id, n, &mut r)); ("selections", n) }
                    5 => { o.set_pre_birth(pres(id, n, &mut r)); ("pre_births", n) }
                    _ => { o.set_stop_checker(Box::new(StopC(log.clone(), id, sub(&mut r), 30, 6))); ("stop_checker", 1) }
                };
                log.borrow_mut().push(Ev::Set(w.0, id, w.1));
            }
        }
        let fresh = r.chance(if k == 0 { 85 } else { 45 });
        log.borrow_mut().push(Ev::Begin(fresh));
        let res = if fresh { o.find_min() } else { o.next_iterations() };
        log.borrow_mut().push(Ev::End(res));
    }
    let v = log.borrow().clone();
    (v, conf)
}

pub fn protocol(h: &mut H, pid: &'static str) {
    let n = h.n(400);
    for _ in 0..n {
        let s = h.r.next();
        let set = pid == "C28";
        h.case("ga-run", format!("genetic optimizer with recording components, scenario seed {}", s), || {
            let (evs, conf) = scenario(s, set);
            let gens = evs.iter().filter(|x| matches!(x, Ev::Pair(..))).count();
            let e = walk(&evs, &conf);
            e.of(pid).map(|_| gens > 0).map_err(|m| format!("{}\nevents: {:?}", m, evs).chars().take(6000).collect())
        });
    }
}

/// runs with selections of the library wrapped in recorders
pub fn with_selections(seed: u64, mk: &mut dyn FnMut(&mut Rng, &Log) -> (Vec<Box<dyn Selection<V>>>, Vec<Box<dyn PreBirth<V>>>), goal: u64, pop: usize) -> Vec<Ev> {
    let log: Log = Rc::new(RefCell::new(vec![]));
    let mut r = Rng(seed);
    let (s, p) = mk(&mut r, &log);
    let sub = |r: &mut Rng| Rng(r.next());
    let np = r.us(0, pop);
    let mut o = GeneticOptimizer::new(
        Box::new(GoalC(log.clone(), sub(&mut r), goal)),
        Box::new(StopC(log.clone(), 1, sub(&mut r), 20, 6)),
        Box::new(CreatorC(log.clone(), 1, sub(&mut r), np)),
        Box::new(PairC(log.clone(), 1, sub(&mut r))),
        Box::new(CrossC(log.clone(), 1, sub(&mut r))),
        Box::new(MutC(log.clone(), 1, sub(&mut r))),
        s,
        p,
    );
    o.set_loggers(vec![Box::new(LogC(log.clone(), 1, 0))]);
    for k in 0..r.us(1, 3) {
        let fresh = k == 0 || r.chance(30);
        log.borrow_mut().push(Ev::Begin(fresh));
        let res = if fresh { o.find_min() } else { o.next_iterations() };
        log.borrow_mut().push(Ev::End(res));
    }
    let v = log.borrow().clone();
    v
}

fn worse(a: f64, b: f64) -> bool {
    a > b || (a.is_nan() && !b.is_nan())
}
fn frame(b: &Pop, a: &Pop) -> Result<(), String> {
    if b.inds.len() != a.inds.len() {
        return Err("individuals appeared or vanished".into());
    }
    for (x, y) in b.inds.iter().zip(&a.inds) {
        if !vsame(&x.c, &y.c) || !same(x.f, y.f) {
            return Err(format!("{:?} became {:?}", x, y));
        }
        if y.a && !x.a {
            return Err(format!("dead {:?} revived", x));
        }
    }
    if a.it != b.it || !osame(&a.best, &b.best) || !osame(&a.worst, &b.worst) {
        return Err("iteration, best or worst changed".into());
    }
    Ok(())
}
fn trunc(b: &Pop, a: &Pop, kill: usize) -> Result<(), String> {
    frame(b, a)?;
    let (nb, na) = (b.inds.iter().filter(|i| i.a).count(), a.inds.iter().filter(|i| i.a).count());
    if nb - na != kill.min(nb) {
        return Err(format!("{} of {} alive killed, expected {}: {:?} -> {:?}", nb - na, nb, kill.min(nb), fa(b), fa(a)));
    }
    for (x, y) in b.inds.iter().zip(&a.inds) {
        if x.a && !y.a {
            if let Some(z) = a.inds.iter().find(|z| z.a && worse(z.f, y.f)) {
                return Err(format!("{} was killed while the worse {} survives: {:?} -> {:?}", y.f, z.f, fa(b), fa(a)));
            }
        }
    }
    Ok(())
}
fn fa(p: &Pop) -> Vec<(f64, bool)> {
    p.inds.iter().map(|i| (i.f, i.a)).collect()
}

/// a selection built from a closure
pub struct SelF(pub Box<dyn FnMut(&mut Population<V>)>);
impl Selection<V> for SelF {
    fn kill(&mut self, p: &mut Population<V>) {
        (self.0)(p)
    }
}

pub fn c03(h: &mut H) {
    use optlib::genetic::selection::{kill_worst, LimitPopulation};
    let n = h.n(500);
    for k in 0..n {
        let s = h.r.next();
        let lim = if k % 3 == 0 { h.r.us(0, 3) } else { h.r.wide(0, 12, 200) };
        let how = h.r.us(0, 2);
        let goal = h.r.pick(&[0u64, 0, 1, 4]);
        let pop = if k % 1500 == 7 { 4000 } else if h.r.chance(2) { 300 } else { h.r.pick(&[3usize, 6, 12, 30]) };
        h.case("truncation", format!("seed {} {} {} goal palette {} population up to {}", s, ["LimitPopulation", "LimitPopulation after set_limit", "kill_worst"][how], lim, goal, pop), || {
            let evs = with_selections(
                s,
                &mut |r, log| {
                    let inner: Box<dyn Selection<V>> = match how {
                        0 => Box::new(LimitPopulation::new(lim)),
                        1 => {
                            let mut l = LimitPopulation::new(1 + (lim * 7) % 5);
                            l.set_limit(lim);
                            Box::new(l)
                        }
                        _ => Box::new(SelF(Box::new(move |p| kill_worst(p, lim)))),
                    };
                    (vec![Box::new(SelC(log.clone(), 1, 0, Rng(r.next()), 15)), Box::new(SelW(log.clone(), 2, 1, inner))], vec![])
                },
                goal,
                pop,
            );
            let mut did = false;
            for e in &evs {
                if let Ev::Sel(2, _, b, a) = e {
                    let nb = b.inds.iter().filter(|i| i.a).count();
                    let kill = if how == 2 { lim } else { nb.saturating_sub(lim) };
                    did |= kill > 0 && nb > 0;
                    trunc(b, a, kill)?;
                }
            }
            Ok(did)
        });
    }
}

pub fn c04(h: &mut H) {
    use optlib::genetic::selection::{KillFitnessNaN, LimitPopulation};
    let n = h.n(500);
    for _ in 0..n {
        let s = h.r.next();
        let lim = h.r.few(1, 9, 100);
        let pop = if h.r.us(0, 1499) == 7 { 4000 } else { h.r.few(10, 10, 200) };
        let nan = h.r.chance(50);
        let goal = h.r.pick(&[2u64, 2, 1, 3]);
        h.case("elitism", format!("seed {} limit {} kill-non-finite first: {} goal palette {}", s, lim, nan, goal), || {
            let evs = with_selections(
                s,
                &mut |_, log| {
                    let mut v: Vec<Box<dyn Selection<V>>> = vec![];
                    if nan {
                        v.push(Box::new(SelW(log.clone(), 1, 0, Box::new(KillFitnessNaN::new()))));
                    }
                    v.push(Box::new(SelW(log.clone(), 2, 1, Box::new(LimitPopulation::new(lim)))));
                    (v, vec![])
                },
                goal,
                pop,
            );
            let mut seen: Vec<f64> = vec![];
            let mut did = false;
            for e in &evs {
                match e {
                    Ev::Begin(true) => seen.clear(),
                    Ev::Goal(_, v) => seen.push(*v),
                    Ev::Log(_, _, 'n', st) => {
                        let any_finite = seen.iter().any(|x| x.is_finite());
                        let neg = seen.iter().any(|x| *x == f64::NEG_INFINITY);
                        if any_finite && !neg {
                            did = true;
                            let m = seen.iter().cloned().filter(|x| !x.is_nan()).fold(f64::INFINITY, f64::min);
                            match &st.best {
                                Some((_, f)) if *f == m => (),
                                o => return Err(format!("best reported at iteration {} is {:?}, the smallest value evaluated is {} (values {:?})", st.it, o, m, seen)),
                            }
                        }
                    }
                    _ => (),
                }
            }
            Ok(did)
        });
    }
}

fn wild(r: &mut Rng, iv: &[(f64, f64)]) -> V {
    iv.iter()
        .map(|(a, b)| match r.us(0, 11) {
            0 => *a,
            1 => *b,
            2 if b.is_finite() => f64::from_bits(if *b > 0.0 { b.to_bits() + 1 } else if *b == 0.0 { 1 } else { b.to_bits() - 1 }),
            3 => a - 1e-9 * (1.0 + a.abs()),
            4 => if r.chance(40) { f64::NAN } else { *a },
            5 => if r.chance(40) { f64::INFINITY } else { *b },
            6 => if r.chance(40) { f64::NEG_INFINITY } else { *a },
            _ => r.real(a.max(-1e9), b.min(1e9)),
        })
        .collect()
}
pub fn boxes(r: &mut Rng, d: usize) -> Vec<(f64, f64)> {
    (0..d)
        .map(|_| match r.us(0, 4) {
            0 => (0.0, 1.0),
            1 => (-5.0, -2.0),
            2 => (3.0, 3.5),
            3 => (-500.0, 500.0),
            _ => {
                let a = r.real(-10., 10.);
                (a, a + r.real(0.1, 5.0))
            }
        })
        .collect()
}
/// some of the intervals have an infinite end
fn open_boxes(r: &mut Rng, d: usize) -> Vec<(f64, f64)> {
    let mut v = boxes(r, d);
    for i in v.iter_mut() {
        match r.us(0, 11) {
            0 => i.0 = f64::NEG_INFINITY,
            1 => i.1 = f64::INFINITY,
            2 => *i = (f64::NEG_INFINITY, f64::INFINITY),
            _ => (),
        }
    }
    v
}
fn inbox(c: &[f64], iv: &[(f64, f64)]) -> bool {
    c.iter().zip(iv).all(|(x, (a, b))| x.is_finite() && *x >= *a && *x <= *b)
}

struct WildCreator(Rng, Vec<(f64, f64)>, usize);
impl Creator<V> for WildCreator {
    fn create(&mut self) -> Vec<V> {
        let n = if self.0.us(0, 1499) == 0 { 1025 } else { self.0.us(0, self.2) };
        (0..n).map(|_| wild(&mut self.0, &self.1)).collect()
    }
}
struct WildCross(Rng, Vec<(f64, f64)>);
impl Cross<V> for WildCross {
    fn cross(&mut self, _p: &[&V]) -> Vec<V> {
        (0..self.0.wide(0, 2, 400)).map(|_| wild(&mut self.0, &self.1)).collect()
    }
}

pub fn c05(h: &mut H) {
    use optlib::genetic::selection::vec_float::CheckChromoInterval;
    use optlib::genetic::selection::KillFitnessNaN;
    mismatch(h, false);
    let n = h.n(300);
    for _ in 0..n {
        let s = h.r.next();
        let d = h.r.few(1, 4, 40);
        let iv = open_boxes(&mut h.r, d);
        let which = h.r.chance(50);
        h.case("filter", format!("seed {} {} intervals {:?}", s, if which { "KillFitnessNaN" } else { "CheckChromoInterval" }, iv), || {
            let log: Log = Rc::new(RefCell::new(vec![]));
            let mut r = Rng(s);
            let inner: Box<dyn Selection<V>> = if which { Box::new(KillFitnessNaN::new()) } else { Box::new(CheckChromoInterval::new(iv.clone())) };
            let mut o = GeneticOptimizer::new(
                Box::new(GoalC(log.clone(), Rng(r.next()), 0)),
                Box::new(StopC(log.clone(), 1, Rng(r.next()), 20, 4)),
                Box::new(WildCreator(Rng(r.next()), iv.clone(), 12)),
                Box::new(PairC(log.clone(), 1, Rng(r.next()))),
                Box::new(WildCross(Rng(r.next()), iv.clone())),
                Box::new(MutC(log.clone(), 1, Rng(r.next()))),
                vec![Box::new(SelC(log.clone(), 1, 0, Rng(r.next()), 15)), Box::new(SelW(log.clone(), 2, 1, inner))],
                vec![],
            );
            o.find_min();
            let mut did = false;
            for e in log.borrow().iter() {
                if let Ev::Sel(2, _, b, a) = e {
                    frame(b, a)?;
                    for (x, y) in b.inds.iter().zip(&a.inds) {
                        let ok = if which { x.f.is_finite() } else { inbox(&x.c, &iv) };
                        did |= !ok;
                        if y.a != (x.a && ok) {
                            return Err(format!("individual {:?} is {} after the selection", x, if y.a { "alive" } else { "dead" }));
                        }
                    }
                }
            }
            Ok(did)
        });
    }
}

pub fn c06(h: &mut H) {
    use optlib::genetic::pre_birth::vec_float::CheckChromoInterval;
    mismatch(h, true);
    let n = h.n(300);
    for _ in 0..n {
        let s = h.r.next();
        let d = h.r.few(1, 4, 40);
        let iv = open_boxes(&mut h.r, d);
        h.case("pre-birth", format!("seed {} intervals {:?}", s, iv), || {
            let log: Log = Rc::new(RefCell::new(vec![]));
            let mut r = Rng(s);
            let mut o = GeneticOptimizer::new(
                Box::new(GoalC(log.clone(), Rng(r.next()), 0)),
                Box::new(StopC(log.clone(), 1, Rng(r.next()), 20, 5)),
                Box::new(WildCreator(Rng(r.next()), iv.clone(), 10)),
                Box::new(PairC(log.clone(), 1, Rng(r.next()))),
                Box::new(WildCross(Rng(r.next()), iv.clone())),
                Box::new(MutC(log.clone(), 1, Rng(r.next()))),
                vec![Box::new(SelC(log.clone(), 1, 0, Rng(r.next()), 15))],
                vec![Box::new(PreW(log.clone(), 1, 0, Box::new(CheckChromoInterval::new(iv.clone()))))],
            );
            o.find_min();
            let mut did = false;
            let mut started = false;
            for e in log.borrow().iter() {
                match e {
                    Ev::Stop(..) => started = true,
                    Ev::Goal(x, _) if started && !inbox(x, &iv) => return Err(format!("offspring {:?} was evaluated", x)),
                    Ev::Pre(_, _, _, b, a) => {
                        let want: Vec<&V> = b.iter().filter(|x| inbox(x, &iv)).collect();
                        did |= want.len() < b.len();
                        if want.len() != a.len() || want.iter().zip(a).any(|(x, y)| !vsame(x, y)) {
                            return Err(format!("{:?} filtered to {:?}", b, a));
                        }
                    }
                    _ => (),
                }
            }
            Ok(did)
        });
    }
}

struct Fixed(Vec<V>);
impl Creator<V> for Fixed {
    fn create(&mut self) -> Vec<V> {
        self.0.clone()
    }
}
/// vectors of a dimension other than the interval list must be rejected
fn mismatch(h: &mut H, pre: bool) {
    for a in 0..4usize {
        for b in 0..4usize {
            for place in 0..3usize {
                h.case("mismatch", format!("{} intervals, {} coordinates in vector {} of 3", a, b, place), || {
                    let log: Log = Rc::new(RefCell::new(vec![]));
                    let iv: Vec<(f64, f64)> = vec![(0.0, 1.0); a];
                    let mut list = vec![vec![0.5; a]; 3];
                    list[place] = vec![0.5; b];
                    let p = if pre {
                        let l = list.clone();
                        panics(move || {
                            let mut o = GeneticOptimizer::new(
                                Box::new(GoalC(log.clone(), Rng(1), 1)),
                                Box::new(StopC(log.clone(), 1, Rng(3), 0, 1)),
                                Box::new(Fixed(vec![])),
                                Box::new(PairC(log.clone(), 1, Rng(1))),
                                Box::new(CrossC(log.clone(), 1, Rng(1))),
                                Box::new(MutC(log.clone(), 1, Rng(1))),
                                vec![],
                                vec![Box::new(Put(l)), Box::new(pre_birth::vec_float::CheckChromoInterval::new(iv))],
                            );
                            o.find_min();
                        })
                    } else {
                        panics(move || {
                            let mut o = GeneticOptimizer::new(
                                Box::new(GoalC(log.clone(), Rng(1), 1)),
                                Box::new(StopC(log.clone(), 1, Rng(3), 0, 1)),
                                Box::new(Fixed(list)),
                                Box::new(PairNone),
                                Box::new(CrossC(log.clone(), 1, Rng(1))),
                                Box::new(MutC(log.clone(), 1, Rng(1))),
                                vec![Box::new(selection::vec_float::CheckChromoInterval::new(iv))],
                                vec![],
                            );
                            o.find_min();
                        })
                    };
                    if p != (a != b) {
                        return Err(format!("panicked: {}", p));
                    }
                    Ok(a != b)
                });
            }
        }
    }
}
struct PairNone;
impl Pairing<V> for PairNone {
    fn get_pairs(&mut self, _p: &Population<V>) -> Vec<Vec<usize>> {
        vec![]
    }
}
/// replaces the offspring by a fixed list
struct Put(Vec<V>);
impl PreBirth<V> for Put {
    fn pre_birth(&mut self, _p: &Population<V>, x: &mut Vec<V>) {
        *x = self.0.clone();
    }
}

/// pairing of the library inside a run
struct PairW(Log, Box<dyn Pairing<V>>, Rc<RefCell<Vec<(Pop, Vec<Vec<usize>>, Vec<u64>)>>>);
impl Pairing<V> for PairW {
    fn get_pairs(&mut self, p: &Population<V>) -> Vec<Vec<usize>> {
        let s = snap(p);
        rand::rngs::ctl::take_log();
        let f = self.1.get_pairs(p);
        self.2.borrow_mut().push((s, f.clone(), rand::rngs::ctl::take_log()));
        f
    }
}
/// asks the inner pairing many times and counts who was chosen: for the first and for the last place of a family
struct PairMany(Box<dyn Pairing<V>>, usize, Rc<RefCell<Vec<Vec<[usize; 2]>>>>);
impl Pairing<V> for PairMany {
    fn get_pairs(&mut self, p: &Population<V>) -> Vec<Vec<usize>> {
        let mut c = vec![[0, 0]; p.len()];
        for _ in 0..self.1 {
            for f in self.0.get_pairs(p) {
                if let (Some(a), Some(b)) = (f.first(), f.last()) {
                    if *a < p.len() && *b < p.len() {
                        c[*a][0] += 1;
                        c[*b][1] += 1;
                    }
                }
            }
        }
        self.2.borrow_mut().push(c);
        vec![]
    }
}
fn decode(raw: &[u64], n: usize) -> Vec<usize> {
    use rand::distributions::{Distribution, Uniform};
    let u = Uniform::new(0usize, n);
    rand::rngs::ctl::script(raw);
    rand::rngs::ctl::take_log();
    let mut out = vec![];
    let mut g = rand::thread_rng();
    let mut used = 0;
    while used < raw.len() {
        out.push(u.sample(&mut g));
        used += rand::rngs::ctl::take_log().len();
    }
    rand::rngs::ctl::script(&[]);
    out
}
pub fn c08(h: &mut H) {
    use optlib::genetic::pairing::{RandomPairing, Tournament};
    for k in 0..6usize {
        let np = [2usize, 3, 4, 7, 10, 12][k];
        for kind in 0..2 {
            h.case("everyone-drawn", format!("{}, population of {}", if kind == 0 { "RandomPairing" } else { "Tournament(8)" }, np), || {
                rand::rngs::ctl::constant(None);
                let log: Log = Rc::new(RefCell::new(vec![]));
                let got = Rc::new(RefCell::new(vec![]));
                let inner: Box<dyn Pairing<V>> = if kind == 0 { Box::new(RandomPairing::new()) } else { Box::new(Tournament::new(8)) };
                let mut o = GeneticOptimizer::new(
                    Box::new(GoalC(log.clone(), Rng(5), 1)),
                    Box::new(optlib::tools::stopchecker::MaxIterations::new(1)),
                    Box::new(CreatorC(log.clone(), 1, Rng(7), np)),
                    Box::new(PairMany(inner, 2000, got.clone())),
                    Box::new(CrossC(log.clone(), 1, Rng(8))),
                    Box::new(MutC(log.clone(), 1, Rng(9))),
                    vec![],
                    vec![],
                );
                o.find_min();
                for c in got.borrow().iter() {
                    if let (true, Some(i)) = (c.len() > 1, c.iter().position(|n| n[0] == 0 || n[1] == 0)) {
                        return Err(format!("member {} of {} is never chosen as first or as second parent in 2000 pairings: {:?}", i, c.len(), c));
                    }
                }
                Ok(true)
            });
        }
    }
    for np in [1500usize, 3000, 70001].iter() {
        for kind in 0..2 {
            let np = *np;
            h.case("everyone-drawn", format!("{}, population of {}", if kind == 0 { "RandomPairing" } else { "Tournament(population size) with no challengers" }, np), || {
                rand::rngs::ctl::constant(None);
                let log: Log = Rc::new(RefCell::new(vec![]));
                let got = Rc::new(RefCell::new(vec![]));
                let inner: Box<dyn Pairing<V>> = if kind == 0 { Box::new(RandomPairing::new()) } else { Box::new(Tournament::new(np).rounds_count(0)) };
                let mut o = GeneticOptimizer::new(
                    Box::new(GoalC(log.clone(), Rng(5), 1)),
                    Box::new(optlib::tools::stopchecker::MaxIterations::new(1)),
                    Box::new(Fixed((0..np).map(|i| vec![i as f64]).collect())),
                    Box::new(PairMany(inner, if np > 60000 { 6 } else { 80 }, got.clone())),
                    Box::new(CrossC(log.clone(), 1, Rng(8))),
                    Box::new(MutC(log.clone(), 1, Rng(9))),
                    vec![],
                    vec![],
                );
                o.find_min();
                for c in got.borrow().iter() {
                    // blocks of neighbours, so that a block is missed with a negligible probability only
                    let b = if np > 60000 { 64 } else { 1 };
                    if let Some(i) = c.chunks(b).position(|w| w.iter().all(|n| n[0] == 0) || w.iter().all(|n| n[1] == 0)) {
                        return Err(format!("none of the members {} to {} of {} is ever chosen as first or as second parent", i * b, i * b + b - 1, c.len()));
                    }
                }
                Ok(true)
            });
        }
    }
    let n = h.n(400);
    for _ in 0..n {
        let s = h.r.next();
        let random = h.r.chance(30);
        let (fam, par, rounds) = (h.r.few(0, 4, 300), h.r.few(0, 4, 40), h.r.few(0, 6, 300));
        let (defp, defr) = (h.r.chance(25), h.r.chance(25));
        let (par, rounds) = (if defp { 2 } else { par }, if defr { 1 } else { rounds });
        let goal = h.r.pick(&[0u64, 1, 4, 3]);
        let swap = h.r.chance(50);
        h.case("pairing", if random { format!("seed {} RandomPairing goal palette {}", s, goal) } else { format!("seed {} Tournament({}) partners {} rounds {} goal palette {}", s, fam, par, rounds, goal) }, || {
            let log: Log = Rc::new(RefCell::new(vec![]));
            let got = Rc::new(RefCell::new(vec![]));
            let mut r = Rng(s);
            let inner: Box<dyn Pairing<V>> = if random {
                Box::new(RandomPairing::new())
            } else {
                let mut t = Tournament::new(fam);
                if swap {
                    if !defr { t = t.rounds_count(rounds); }
                    if !defp { t = t.partners_count(par); }
                } else {
                    if !defp { t = t.partners_count(par); }
                    if !defr { t = t.rounds_count(rounds); }
                }
                Box::new(t)
            };
            let np = r.wide(0, 9, 300);
            let mut o = GeneticOptimizer::new(
                Box::new(GoalC(log.clone(), Rng(r.next()), goal)),
                Box::new(StopC(log.clone(), 1, Rng(r.next()), 20, 4)),
                Box::new(CreatorC(log.clone(), 1, Rng(r.next()), np)),
                Box::new(PairW(log.clone(), inner, got.clone())),
                Box::new(CrossC(log.clone(), 1, Rng(r.next()))),
                Box::new(MutC(log.clone(), 1, Rng(r.next()))),
                vec![Box::new(SelC(log.clone(), 1, 0, Rng(r.next()), 30))],
                vec![],
            );
            o.find_min();
            let mut did = false;
            for (p, f, raw) in got.borrow().iter() {
                let len = p.inds.len();
                let shape = if random { (len / 2, 2) } else if len == 0 { (0, par) } else { (fam, par) };
                if f.len() != shape.0 || f.iter().any(|x| x.len() != shape.1) || f.iter().flatten().any(|i| *i >= len) {
                    return Err(format!("families {:?} for a population of {}", f, len));
                }
                if len == 0 || random {
                    continue;
                }
                did = true;
                let draws = decode(raw, len);
                let per = rounds + 1;
                if draws.len() != fam * par * per {
                    return Err(format!("{} draws for {} partners with {} challengers each", draws.len(), fam * par, rounds));
                }
                for (k, w) in f.iter().flatten().enumerate() {
                    let d = &draws[k * per..(k + 1) * per];
                    let mut win = d[0];
                    for c in &d[1..] {
                        if p.inds[*c].f < p.inds[win].f {
                            win = *c;
                        }
                    }
                    if win != *w {
                        return Err(format!("partner {} is {} but the winner of {:?} is {} (goals {:?})", k, w, d, win, p.inds.iter().map(|i| i.f).collect::<Vec<_>>()));
                    }
                }
            }
            Ok(did)
        });
    }
}

/// looks at the same large population through every accessor
struct Views(Rc<RefCell<Vec<String>>>);
impl Selection<V> for Views {
    fn kill(&mut self, p: &mut Population<V>) {
        let n = p.len();
        let mut bad = vec![];
        let a: Vec<(V, f64, bool)> = (0..n).map(|i| (p[i].get_chromosomes().clone(), p[i].get_fitness(), p[i].is_alive())).collect();
        let it: Vec<(V, f64, bool)> = p.iter().map(|i| (i.get_chromosomes().clone(), i.get_fitness(), i.is_alive())).collect();
        if a != it {
            bad.push(format!("iter() shows {} individuals, len() is {}", it.len(), n));
        }
        let ag: Vec<(V, f64, bool)> = p.get_agents().iter().map(|i| (i.get_chromosomes().clone(), i.get_goal(), i.is_alive())).collect();
        if a != ag {
            bad.push(format!("get_agents() shows {} individuals, len() is {}", ag.len(), n));
        }
        if a.iter().enumerate().any(|(i, x)| x.0[0] != i as f64) {
            bad.push("the individuals are not the created ones, in order".into());
        }
        let al = p.len_alive();
        if al != a.iter().filter(|x| x.2).count() {
            bad.push(format!("len_alive() is {}", al));
        }
        let mut k = 0;
        for (i, x) in p.iter_mut().enumerate() {
            if i % 3 == 0 {
                x.kill();
            }
            k += 1;
        }
        if k != n || (0..n).any(|i| p[i].is_alive() != (i % 3 != 0)) || p.len_alive() != n - (n + 2) / 3 {
            bad.push(format!("killing every third through iter_mut() left {} alive of {}", p.len_alive(), n));
        }
        self.0.borrow_mut().append(&mut bad);
    }
}
pub fn large(h: &mut H) {
    for np in [1025usize, 5000, 70001].iter() {
        h.case("large-population", format!("{} individuals", np), || {
            let bad = Rc::new(RefCell::new(vec![]));
            let log: Log = Rc::new(RefCell::new(vec![]));
            let mut o = GeneticOptimizer::new(
                Box::new(GoalC(log.clone(), Rng(5), 1)),
                Box::new(optlib::tools::stopchecker::MaxIterations::new(1)),
                Box::new(Fixed((0..*np).map(|i| vec![i as f64]).collect())),
                Box::new(PairNone),
                Box::new(CrossC(log.clone(), 1, Rng(8))),
                Box::new(MutC(log.clone(), 1, Rng(9))),
                vec![Box::new(Views(bad.clone()))],
                vec![],
            );
            o.find_min();
            let b = bad.borrow();
            if b.is_empty() { Ok(true) } else { Err(format!("{:?}", b)) }
        });
    }
}
