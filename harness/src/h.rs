//! case runner
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// the harness's own generator
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// in [a, b]
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn us(&mut self, a: usize, b: usize) -> usize {
        self.int(a as i64, b as i64) as usize
    }
    /// in [a, b], now and then up to `big`
    pub fn few(&mut self, a: usize, b: usize, big: usize) -> usize {
        if self.next() % 64 == 0 { self.us(b, big) } else { self.us(a, b) }
    }
    /// as `few`, and rarely past the sizes that fit one or two bytes
    pub fn vast(&mut self, a: usize, b: usize, big: usize) -> usize {
        if self.next() % 3000 == 0 { self.pick(&[257, 1025, 100_003]) } else { self.few(a, b, big) }
    }
    /// as `vast`, for what costs more per element
    pub fn wide(&mut self, a: usize, b: usize, big: usize) -> usize {
        if self.next() % 3000 == 0 { self.pick(&[257, 300, 1025]) } else { self.few(a, b, big) }
    }
    pub fn chance(&mut self, p: u64) -> bool {
        self.next() % 100 < p
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn real(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.us(0, v.len() - 1)].clone()
    }
}

pub type R = Result<bool, String>;

pub struct H {
    pub r: Rng,
    pub seed: u64,
    pub thorough: bool,
    pub start: std::time::Instant,
    pub last: Option<std::fs::File>,
    only: Option<String>,
    pub evals: u64,
    seen: HashSet<u64>,
    pub samples: Vec<String>,
    count: u64,
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// does `f` panic
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        f();
    }))
    .is_err()
}

impl H {
    pub fn new(seed: u64, thorough: bool, only: Option<String>) -> H {
        H { r: Rng(seed.wrapping_mul(0x1234_5678_9ABC_DEF1) ^ 0x5555), seed, thorough, only, evals: 0, seen: HashSet::new(), samples: vec![], count: 0, start: std::time::Instant::now(), last: std::env::var("HARNESS_LAST").ok().and_then(|p| std::fs::File::create(p).ok()) }
    }
    /// number of random cases
    pub fn n(&self, quick: usize) -> usize {
        if let Some(m) = std::env::var("HARNESS_MULT").ok().and_then(|m| m.parse::<usize>().ok()) {
            return quick * m;
        }
        if self.thorough { quick * 2000 } else { quick * 60 }
    }
    pub fn case(&mut self, name: &str, input: String, f: impl FnOnce() -> R) {
        self.count += 1;
        let id = format!("{}#{}", name, self.count);
        if let Some(o) = &self.only {
            if *o != id {
                return;
            }
        }
        // no new case after the time budget
        let budget = if self.thorough { 300 } else { 45 };
        if self.start.elapsed().as_secs() >= budget && self.only.is_none() {
            return;
        }
        // the last line of this fixed-size record names the case that is running
        let short: String = input.chars().take(400).collect();
        let line = format!("{{\"kind\":\"case\",\"case\":{},\"input\":{}}}\n", js(&id), js(&short));
        match &self.last {
            Some(f) => {
                use std::os::unix::fs::FileExt;
                let mut b = line.into_bytes();
                if b.len() < 4096 {
                    b.resize(4096, b' ');
                }
                let _ = f.write_all_at(&b, 0);
            }
            None => print!("{}", line),
        }
        rand::rngs::ctl::seed(self.seed.wrapping_mul(77).wrapping_add(self.count));
        self.evals += 1;
        let r = catch_unwind(AssertUnwindSafe(f));
        let why = match r {
            Ok(Ok(nontrivial)) => {
                if nontrivial {
                    let mut h = DefaultHasher::new();
                    (name, &input).hash(&mut h);
                    if self.seen.insert(h.finish()) && self.samples.len() < 3 {
                        self.samples.push(format!("{}: {}", id, input.chars().take(300).collect::<String>()));
                    }
                }
                return;
            }
            Ok(Err(e)) => e,
            Err(e) => format!("unexpected panic: {}", panic_text(&e)),
        };
        println!("{{\"kind\":\"failure\",\"case\":{},\"input\":{},\"what\":{}}}", js(&id), js(&input), js(&why));
        std::process::exit(1);
    }
    pub fn finish(&self, rule: &str) {
        println!(
            "{{\"kind\":\"summary\",\"evaluations\":{},\"distinct\":{},\"rule\":{},\"samples\":[{}]}}",
            self.evals,
            self.seen.len(),
            js(rule),
            self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
        );
    }
}

/// equal as a copy: same number, or both NaN
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || a == b
}
pub fn vsame(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y))
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    same(a, b) || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
