//! small components against their reference
use crate::h::*;
use num::Float;
use optlib::genetic::creation::vec_float::RandomCreator;
use optlib::genetic::cross::*;
use optlib::genetic::mutation::*;
use optlib::genetic::{Creator, Cross, Mutation};
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::{CoordinatesInitializer, PostMove, PostVelocityCalc, VelocityInitializer};
use optlib::tools::logging::Logger;
use optlib::tools::statistics::*;
use optlib::tools::stopchecker::*;
use optlib::tools::RandomVectorCreator;
use optlib::{AlgorithmState, Goal};
use rand::rngs::ctl;
use std::cell::RefCell;
use std::rc::Rc;

type V = Vec<f64>;

/// raw generator settings: none is random, two are extremes, one alternates
fn raws(k: usize) {
    match k % 4 {
        0 => ctl::constant(None),
        1 => ctl::constant(Some(0)),
        2 => ctl::constant(Some(u64::MAX)),
        _ => {
            ctl::constant(None);
            let v: Vec<u64> = (0..64).map(|i| if i % 2 == 0 { 0 } else { u64::MAX }).collect();
            ctl::script(&v);
        }
    }
}

fn wild(r: &mut Rng) -> f64 {
    match r.us(0, 9) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.0,
        4 => -0.0,
        5 => r.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324]),
        6 => f64::from_bits(r.next()),
        7 => r.int(-3, 3) as f64,
        _ => r.real(-20., 20.),
    }
}
fn interval(r: &mut Rng) -> (f64, f64) {
    match r.us(0, 5) {
        0 => (0.0, 1.0),
        1 => (-1.0, 1.0),
        2 => {
            let a = r.real(-1e6, 1e6);
            (a, a + r.real(1e-3, 1e6))
        }
        3 => {
            let a = r.real(1., 2.);
            (a, f64::from_bits(a.to_bits() + r.next() % 4 + 1))
        }
        4 => (1e10 * r.unit(), 1e12),
        _ => {
            let a = r.int(-10, 10) as f64;
            (a, a + r.int(1, 10) as f64)
        }
    }
}

fn inside(what: &str, vs: &[V], iv: &[(f64, f64)], n: usize) -> R {
    if vs.len() != n {
        return Err(format!("{}: {} vectors, {} configured", what, vs.len(), n));
    }
    for v in vs {
        if v.len() != iv.len() {
            return Err(format!("{}: {:?} has {} values for {} intervals", what, v, v.len(), iv.len()));
        }
        for (x, (a, b)) in v.iter().zip(iv) {
            if !(a <= x && x <= b) {
                return Err(format!("{}: {:e} is outside [{:e}, {:e}]", what, x, a, b));
            }
        }
    }
    Ok(n > 0 && !iv.is_empty())
}

/// every tenth of the interval of each coordinate occurs among the vectors (enough of them)
fn fills(what: &str, vs: &[V], iv: &[(f64, f64)]) -> R {
    for (i, (a, b)) in iv.iter().enumerate() {
        let mut hit = [0usize; 10];
        for v in vs {
            let k = ((v[i] - a) / (b - a) * 10.0) as usize;
            hit[k.min(9)] += 1;
        }
        if let Some(k) = hit.iter().position(|n| *n == 0) {
            return Err(format!("{}: none of {} values of coordinate {} lies in tenth {} of its interval {:?}", what, vs.len(), i, k + 1, iv[i]));
        }
    }
    Ok(true)
}

pub fn c07(h: &mut H) {
    for d in [3usize, 2, 70, 300].iter() {
        let iv: Vec<(f64, f64)> = (0..*d).map(|_| { let a = h.r.real(-50., 50.); (a, a + h.r.real(0.1, 30.)) }).collect();
        h.case("whole-interval", format!("1500 vectors in {:?}", iv), || {
            ctl::constant(None);
            fills("RandomCreator", &RandomCreator::new(1500, iv.clone()).create(), &iv)?;
            let mut c = RandomVectorCreator::new();
            let v: Vec<V> = (0..1500).map(|_| c.create_vec(&iv)).collect();
            fills("RandomVectorCreator", &v, &iv)?;
            fills("RandomCoordinatesInitializer", &RandomCoordinatesInitializer::new(iv.clone(), 1500).get_coordinates(), &iv)?;
            fills("RandomVelocityInitializer", &RandomVelocityInitializer::new(iv.clone(), 1500).get_velocity(), &iv)
        });
    }

    for (cnt, d) in [(70001usize, 1usize), (66000, 2), (2, 70001)].iter() {
        let (cnt, d) = (*cnt, *d);
        h.case("large", format!("{} vectors of {} values", cnt, d), || {
            ctl::constant(None);
            let iv = vec![(-2.0, 3.5); d];
            inside("RandomCreator::create", &RandomCreator::new(cnt, iv.clone()).create(), &iv, cnt)?;
            inside("RandomCoordinatesInitializer", &RandomCoordinatesInitializer::new(iv.clone(), cnt).get_coordinates(), &iv, cnt)?;
            inside("RandomVelocityInitializer", &RandomVelocityInitializer::new(iv.clone(), cnt).get_velocity(), &iv, cnt)?;
            let z: Vec<V> = ZeroVelocityInitializer::new(d, cnt).get_velocity();
            if z.len() != cnt || z.iter().any(|v| v.len() != d || v.iter().any(|x| *x != 0.0)) {
                return Err(format!("ZeroVelocityInitializer::new({}, {}) gave {} vectors", d, cnt, z.len()));
            }
            Ok(true)
        });
    }
    let n = h.n(600);
    for k in 0..n {
        let cnt = h.r.wide(0, 7, 300);
        let d = if cnt > 300 { 2 } else { h.r.wide(0, 5, 40) };
        let iv: Vec<(f64, f64)> = (0..d).map(|_| interval(&mut h.r)).collect();
        let zd = h.r.us(0, 6);
        h.case("creation", format!("{} vectors, intervals {:?}, generator mode {}", cnt, iv, k % 4), || {
            raws(k);
            if cnt == 0 || d == 0 {
                let iv2 = iv.clone();
                if !panics(move || RandomCreator::new(cnt, iv2)) {
                    return Err("RandomCreator::new accepted an empty population or interval list".into());
                }
            } else {
                let mut c = RandomCreator::new(cnt, iv.clone());
                for _ in 0..2 {
                    inside("RandomCreator::create", &c.create(), &iv, cnt)?;
                }
            }
            raws(k);
            let mut c = RandomVectorCreator::new();
            inside("RandomVectorCreator::create_vec", &[c.create_vec(&iv)], &iv, 1)?;
            raws(k + 1);
            let mut c = RandomCoordinatesInitializer::new(iv.clone(), cnt);
            inside("RandomCoordinatesInitializer", &c.get_coordinates(), &iv, cnt)?;
            inside("RandomCoordinatesInitializer", &c.get_coordinates(), &iv, cnt)?;
            let mut c = RandomVelocityInitializer::new(iv.clone(), cnt);
            inside("RandomVelocityInitializer", &c.get_velocity(), &iv, cnt)?;
            let mut c = ZeroVelocityInitializer::new(zd, cnt);
            let z: Vec<V> = c.get_velocity();
            if z.len() != cnt || z.iter().any(|v| v.len() != zd || v.iter().any(|x| *x != 0.0)) {
                return Err(format!("ZeroVelocityInitializer::new({}, {}) gave {:?}", zd, cnt, z));
            }
            let z: Vec<Vec<f32>> = c.get_velocity();
            if z.len() != cnt || z.iter().any(|v| v.len() != zd || v.iter().any(|x| *x != 0.0)) {
                return Err(format!("ZeroVelocityInitializer::new({}, {}) gave {:?}", zd, cnt, z));
            }
            Ok(cnt > 0 && d > 0)
        });
        // narrower types
        let iv32: Vec<(f32, f32)> = (0..d.max(1)).map(|_| { let (a, b) = interval(&mut h.r); let a = a as f32; let b = b as f32; if a < b { (a, b) } else { (a, f32::from_bits(if a >= 0. { a.to_bits() + 1 } else { a.to_bits() - 1 })) } }).collect();
        let ivi: Vec<(i32, i32)> = (0..d.max(1)).map(|_| { let a = h.r.int(-50, 50) as i32; (a, a + h.r.int(1, 50) as i32) }).collect();
        let c = cnt.max(1);
        h.case("creation-f32-i32", format!("{} vectors, f32 intervals {:?}, i32 intervals {:?}, generator mode {}", c, iv32, ivi, k % 4), || {
            raws(k);
            let w: Vec<V> = RandomCreator::new(c, iv32.clone()).create().iter().map(|v| v.iter().map(|x| *x as f64).collect()).collect();
            let iv: Vec<(f64, f64)> = iv32.iter().map(|(a, b)| (*a as f64, *b as f64)).collect();
            inside("RandomCreator<f32>::create", &w, &iv, c)?;
            let w: Vec<V> = RandomCoordinatesInitializer::new(iv32.clone(), c).get_coordinates().iter().map(|v| v.iter().map(|x| *x as f64).collect()).collect();
            inside("RandomCoordinatesInitializer<f32>", &w, &iv, c)?;
            let w: Vec<V> = RandomCreator::new(c, ivi.clone()).create().iter().map(|v| v.iter().map(|x| *x as f64).collect()).collect();
            let iv: Vec<(f64, f64)> = ivi.iter().map(|(a, b)| (*a as f64, *b as f64)).collect();
            inside("RandomCreator<i32>::create", &w, &iv, c)
        });
    }
    let bads: [(f64, f64); 6] = [(1.0, 0.0), (0.0, 0.0), (0.0, f64::NAN), (f64::NAN, 1.0), (5.0, -5.0), (0.0, -0.0)];
    for bad in bads.iter() {
        for pos in 0..3 {
            let mut iv = vec![(0.0, 1.0), (-2.0, 2.0)];
            iv.insert(pos, *bad);
            h.case("bad-interval", format!("{:?}", iv), || {
                let i = iv.clone();
                if !panics(move || RandomCreator::new(3, i)) {
                    return Err("RandomCreator::new accepted it".into());
                }
                let i = iv.clone();
                if !panics(move || RandomVectorCreator::new().create_vec(&i)) {
                    return Err("create_vec accepted it".into());
                }
                let i = iv.clone();
                if !panics(move || RandomCoordinatesInitializer::new(i, 2).get_coordinates()) {
                    return Err("RandomCoordinatesInitializer created coordinates".into());
                }
                let i = iv.clone();
                if !panics(move || RandomVelocityInitializer::new(i, 2).get_velocity()) {
                    return Err("RandomVelocityInitializer created velocities".into());
                }
                Ok(true)
            });
        }
    }
}

fn sp(a: u64, b: u64, pos: usize, width: usize) -> u64 {
    let mut o = 0u64;
    for i in 0..width {
        let bit = if i >= pos { a >> i & 1 } else { b >> i & 1 };
        o |= bit << i;
    }
    o
}

pub fn c09(h: &mut H) {
    h.case("u8-i8-all", "all pairs of bytes, all positions".into(), || {
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                for p in 1..8 {
                    let w = sp(a as u64, b as u64, p, 8) as u8;
                    let g = cross_u8(a, b, p);
                    if g != w {
                        return Err(format!("cross_u8({}, {}, {}) is {}, expected {}", a, b, p, g, w));
                    }
                    let g = cross_i8(a as i8, b as i8, p);
                    if g != w as i8 {
                        return Err(format!("cross_i8({}, {}, {}) is {}, expected {}", a as i8, b as i8, p, g, w as i8));
                    }
                }
            }
        }
        Ok(true)
    });
    let n = h.n(1500);
    for k in 0..n {
        let mut v = || match h.r.us(0, 5) { 0 => 0u64, 1 => u64::MAX, 2 => 1u64 << h.r.us(0, 63), 3 => !(1u64 << h.r.us(0, 63)), _ => h.r.next() };
        let (a, b) = match k { 0 => (0, u64::MAX), 1 => (u64::MAX, 0), _ => (v(), v()) };
        h.case("pair", format!("{:#x} and {:#x}, all positions", a, b), || {
            macro_rules! chk {
                ($f:expr, $t:ty, $w:expr) => {
                    for p in 1..$w {
                        let g = $f(a as $t, b as $t, p);
                        let w = sp(a, b, p, $w) as $t;
                        if g != w {
                            return Err(format!("{}({}, {}, {}) is {}, expected {}", stringify!($f), a as $t, b as $t, p, g, w));
                        }
                    }
                };
            }
            chk!(cross_u64, u64, 64);
            chk!(cross_u32, u32, 32);
            chk!(cross_u16, u16, 16);
            chk!(cross_i16, i16, 16);
            for p in 1..64 {
                let g = cross_f64(f64::from_bits(a), f64::from_bits(b), p).to_bits();
                let w = sp(a, b, p, 64);
                if g != w {
                    return Err(format!("cross_f64 of bits {:#x}, {:#x} at {} has bits {:#x}, expected {:#x}", a, b, p, g, w));
                }
            }
            for p in 1..32 {
                let g = cross_f32(f32::from_bits(a as u32), f32::from_bits(b as u32), p).to_bits();
                let w = sp(a, b, p, 32) as u32;
                if g != w {
                    return Err(format!("cross_f32 of bits {:#x}, {:#x} at {} has bits {:#x}, expected {:#x}", a as u32, b as u32, p, g, w));
                }
            }
            Ok(a != b)
        });
    }
}

struct RecCross(Rc<RefCell<Vec<(Vec<f64>, Vec<f64>)>>>, Rng);
impl Cross<f64> for RecCross {
    fn cross(&mut self, p: &[&f64]) -> Vec<f64> {
        let o = vec![self.1.real(-5., 5.)];
        self.0.borrow_mut().push((p.iter().map(|x| **x).collect(), o.clone()));
        o
    }
}

fn expset<T: Float>(a: T, b: T, got: T, tol: f64) -> bool {
    let (m1, e1, s1) = a.integer_decode();
    let (m2, e2, s2) = b.integer_decode();
    for mp in 1..64 {
        let m = sp(m1, m2, mp, 64);
        for ep in 1..16 {
            let e = sp(e1 as u16 as u64, e2 as u16 as u64, ep, 16) as u16 as i16;
            for s in [s1, s2].iter() {
                let w = T::from(*s).unwrap() * T::from(m).unwrap() * T::from(e).unwrap().exp2();
                let (g, w) = (got.to_f64().unwrap(), w.to_f64().unwrap());
                if same(g, w) || (g - w).abs() <= tol * w.abs() {
                    return true;
                }
            }
        }
    }
    false
}

pub fn c10(h: &mut H) {
    h.case("every-position", "parents that differ in every bit, 5000 crossings".into(), || {
        ctl::constant(None);
        let (a, b) = (f64::from_bits(0x5555_5555_5555_5555), f64::from_bits(0xAAAA_AAAA_AAAA_AAAA));
        let (mut c64, mut c32) = (CrossBitwise::new(), CrossBitwise::new());
        let (a3, b3) = (f32::from_bits(0x5555_5555), f32::from_bits(0xAAAA_AAAA));
        let (mut s64, mut s32) = ([false; 64], [false; 32]);
        for _ in 0..5000 {
            let c: Vec<f64> = c64.cross(&[&a, &b]);
            if let Some(p) = (1..64).find(|p| sp(a.to_bits(), b.to_bits(), *p, 64) == c[0].to_bits()) {
                s64[p] = true;
            }
            let c: Vec<f32> = c32.cross(&[&a3, &b3]);
            if let Some(p) = (1..32).find(|p| sp(a3.to_bits() as u64, b3.to_bits() as u64, *p, 32) as u32 == c[0].to_bits()) {
                s32[p] = true;
            }
        }
        if let Some(p) = (1..64).find(|p| !s64[*p]) {
            return Err(format!("CrossBitwise of f64 never crosses at position {}", p));
        }
        if let Some(p) = (1..32).find(|p| !s32[*p]) {
            return Err(format!("CrossBitwise of f32 never crosses at position {}", p));
        }
        // the decoded parts: mantissa positions that can be told apart, exponent positions, both signs
        let mut x = FloatCrossExp::new();
        let (ma, mb) = (0x15_5555_5555_5555u64, 0x1A_AAAA_AAAA_AAAAu64);
        let (fa, fb) = (ma as f64, -(mb as f64));
        let mut seen = std::collections::HashSet::new();
        for _ in 0..5000 {
            seen.insert(x.cross(&[&fa, &fb])[0].to_bits());
        }
        for p in 1..64 {
            let m = sp(ma, mb, p, 64) as f64;
            for w in [m, -m].iter() {
                if !seen.contains(&w.to_bits()) {
                    return Err(format!("FloatCrossExp never crosses the mantissas of {} and {} at position {} with the sign of {}", fa, fb, p, w));
                }
            }
        }
        // the mantissa of zero is zero: only a position above 52 takes over the bit of the other parent
        let (z, one) = (0.0f64, 1.0f64);
        if (0..5000).all(|_| x.cross(&[&z, &one])[0] == 0.0) {
            return Err("FloatCrossExp never crosses the mantissas at a position above 52".into());
        }
        // equal mantissas, exponents that differ in the low ten bits
        let (ea, eb) = (341i16, -342i16);
        let (fa, fb) = (2f64.powi(ea as i32 + 52), 2f64.powi(eb as i32 + 52));
        let mut seen = std::collections::HashSet::new();
        for _ in 0..5000 {
            seen.insert(x.cross(&[&fa, &fb])[0].to_bits());
        }
        for p in 1..16 {
            let e = sp(ea as u16 as u64, eb as u16 as u64, p, 16) as u16 as i16;
            let w = 2f64.powi(52) * (e as f64).exp2();
            if !seen.contains(&w.to_bits()) {
                return Err(format!("FloatCrossExp never crosses the exponents {} and {} at position {}", ea, eb, p));
            }
        }
        Ok(true)
    });
    let n = h.n(500);
    for k in 0..n {
        let cnt = h.r.wide(2, 6, 600);
        let big = cnt > 6;
        let ps: Vec<f64> = (0..cnt).map(|_| h.r.real(-100., 100.)).collect();
        let pp: Vec<f64> = (0..cnt).map(|_| if big { h.r.real(0.9, 1.1) } else if h.r.chance(5) { 0.0 } else { h.r.real(0.01, 50.) }).collect();
        // an even number of negative parents has a positive product
        let mut pp = pp;
        if h.r.chance(30) {
            for _ in 0..h.r.us(1, 3) {
                let (i, j) = (h.r.us(0, cnt - 1), h.r.us(0, cnt - 1));
                pp[i] = -pp[i];
                pp[j] = -pp[j];
            }
        }
        h.case("means", format!("{:?} and {:?}", ps, pp), || {
            let refs: Vec<&f64> = ps.iter().collect();
            let m = CrossMean::new().cross(&refs);
            let want = ps.iter().sum::<f64>() / cnt as f64;
            if m.len() != 1 || !close(m[0], want, 1e-12 * (1.0 + cnt as f64 / 6.0)) {
                return Err(format!("CrossMean of {:?} is {:?}, expected [{}]", ps, m, want));
            }
            let i: Vec<i64> = ps.iter().map(|x| *x as i64 * cnt as i64).collect();
            let refs: Vec<&i64> = i.iter().collect();
            let m = CrossMean::new().cross(&refs);
            let want = i.iter().sum::<i64>() / cnt as i64;
            if m != vec![want] {
                return Err(format!("CrossMean of {:?} is {:?}, expected [{}]", i, m, want));
            }
            let f: Vec<f32> = ps.iter().map(|x| *x as f32).collect();
            let refs: Vec<&f32> = f.iter().collect();
            let m = CrossMean::new().cross(&refs);
            let want = f.iter().map(|x| *x as f64).sum::<f64>() / cnt as f64;
            if m.len() != 1 || (m[0] as f64 - want).abs() > 1e-4 * (1.0 + cnt as f64 / 6.0) {
                return Err(format!("CrossMean of {:?} is {:?}, expected [{}]", f, m, want));
            }
            let refs: Vec<&f64> = pp.iter().collect();
            let m = FloatCrossGeometricMean::new().cross(&refs);
            let want = pp.iter().product::<f64>().powf(1.0 / cnt as f64);
            if m.len() != 1 || !close(m[0], want, 1e-9) {
                return Err(format!("FloatCrossGeometricMean of {:?} is {:?}, expected [{}]", pp, m, want));
            }
            let f: Vec<f32> = pp.iter().map(|x| *x as f32).collect();
            let refs: Vec<&f32> = f.iter().collect();
            let m = FloatCrossGeometricMean::new().cross(&refs);
            if m.len() != 1 || !close(m[0] as f64, want, 1e-3) {
                return Err(format!("FloatCrossGeometricMean of {:?} is {:?}, expected [{}]", f, m, want));
            }
            Ok(true)
        });
        let (a, b) = match h.r.us(0, 3) {
            0 => (h.r.real(-10., 10.), h.r.real(-10., 10.)),
            1 => (h.r.real(-1e9, 1e9), h.r.real(-1e-9, 1e-9)),
            2 => (h.r.int(-8, 8) as f64, h.r.int(-8, 8) as f64),
            _ => (f64::from_bits(h.r.next()), f64::from_bits(h.r.next())),
        };
        h.case("bit-operators", format!("{:e} ({:#x}) and {:e} ({:#x}), generator mode {}", a, a.to_bits(), b, b.to_bits(), k % 4), || {
            raws(k);
            let c: Vec<f64> = CrossBitwise::new().cross(&[&a, &b]);
            if c.len() != 1 || !(1..64).any(|p| sp(a.to_bits(), b.to_bits(), p, 64) == c[0].to_bits()) {
                return Err(format!("CrossBitwise gave {:?} (bits {:#x})", c, c.first().map(|x| x.to_bits()).unwrap_or(0)));
            }
            let (a3, b3) = (a as f32, b as f32);
            let c: Vec<f32> = CrossBitwise::new().cross(&[&a3, &b3]);
            if c.len() != 1 || !(1..32).any(|p| sp(a3.to_bits() as u64, b3.to_bits() as u64, p, 32) as u32 == c[0].to_bits()) {
                return Err(format!("CrossBitwise of f32 {:e}, {:e} gave {:?}", a3, b3, c));
            }
            raws(k);
            let c: Vec<f64> = FloatCrossExp::new().cross(&[&a, &b]);
            if c.len() != 1 || !expset(a, b, c[0], 1e-13) {
                return Err(format!("FloatCrossExp gave {:?}, which no crossing of mantissas and exponents gives", c));
            }
            let c: Vec<f32> = FloatCrossExp::new().cross(&[&a3, &b3]);
            if c.len() != 1 || !expset(a3, b3, c[0], 1e-5) {
                return Err(format!("FloatCrossExp of f32 {:e}, {:e} gave {:?}", a3, b3, c));
            }
            Ok(a != b)
        });
        let d = h.r.wide(0, 5, 300);
        let p1: V = (0..d).map(|_| wild(&mut h.r)).collect();
        let p2: V = (0..d).map(|_| wild(&mut h.r)).collect();
        let s = h.r.next();
        h.case("vec-all-genes", format!("{:?} and {:?}", p1, p2), || {
            let log = Rc::new(RefCell::new(vec![]));
            let mut c = VecCrossAllGenes::new(Box::new(RecCross(log.clone(), Rng(s))));
            for _ in 0..2 {
                log.borrow_mut().clear();
                let o = c.cross(&[&p1, &p2]);
                if o.len() != 1 || o[0].len() != d {
                    return Err(format!("{:?} for {} genes", o, d));
                }
                let l = log.borrow();
                if l.len() != d {
                    return Err(format!("{} single crossings for {} genes", l.len(), d));
                }
                for i in 0..d {
                    if !l.iter().any(|e| vsame(&e.0, &[p1[i], p2[i]]) && e.1[0] == o[0][i]) {
                        return Err(format!("gene {} is {}, the crossings were {:?}", i, o[0][i], l));
                    }
                }
            }
            Ok(d > 0)
        });
    }
    for cnt in 0..5usize {
        h.case("parent-count", format!("{} parents", cnt), || {
            let f: Vec<f64> = (0..cnt).map(|i| i as f64 + 1.0).collect();
            let g: Vec<f32> = f.iter().map(|x| *x as f32).collect();
            let v: Vec<V> = f.iter().map(|x| vec![*x, 2.0]).collect();
            let rf: Vec<&f64> = f.iter().collect();
            let rg: Vec<&f32> = g.iter().collect();
            let rv: Vec<&V> = v.iter().collect();
            let log = Rc::new(RefCell::new(vec![]));
            let res = [
                ("CrossMean", panics(|| CrossMean::new().cross(&rf)), cnt < 2),
                ("FloatCrossGeometricMean", panics(|| FloatCrossGeometricMean::new().cross(&rf)), cnt < 2),
                ("CrossBitwise<f64>", panics(|| { let _: Vec<f64> = CrossBitwise::new().cross(&rf); }), cnt != 2),
                ("CrossBitwise<f32>", panics(|| { let _: Vec<f32> = CrossBitwise::new().cross(&rg); }), cnt != 2),
                ("FloatCrossExp", panics(|| FloatCrossExp::new().cross(&rf)), cnt != 2),
                ("VecCrossAllGenes", panics(|| VecCrossAllGenes::new(Box::new(RecCross(log.clone(), Rng(1)))).cross(&rv)), cnt != 2),
            ];
            for (w, got, want) in res.iter() {
                if got != want {
                    return Err(format!("{} with {} parents: panicked {}, expected {}", w, cnt, got, want));
                }
            }
            Ok(true)
        });
    }
}

struct RecMut(Rc<RefCell<Vec<(f64, f64)>>>, f64);
impl Mutation<f64> for RecMut {
    fn mutation(&mut self, x: &f64) -> f64 {
        self.1 += 1.0;
        let o = 1e6 + self.1;
        self.0.borrow_mut().push((*x, o));
        o
    }
}

pub fn c11(h: &mut H) {
    h.case("every-bit", "single flips, 5000 each".into(), || {
        ctl::constant(None);
        let mut m = BitwiseMutation::new(1);
        let (mut s64, mut s32) = (0u64, 0u32);
        for _ in 0..5000 {
            let g: f64 = m.mutation(&1.5f64);
            s64 |= g.to_bits() ^ 1.5f64.to_bits();
            let g: f32 = m.mutation(&1.5f32);
            s32 |= g.to_bits() ^ 1.5f32.to_bits();
        }
        if s64 != u64::MAX || s32 != u32::MAX {
            return Err(format!("bits never flipped: f64 {:#x}, f32 {:#x}", !s64, !s32));
        }
        Ok(true)
    });
    for d in [2usize, 7, 40, 300].iter() {
        let d = *d;
        h.case("own-draws", format!("{} genes at probability 50, 400 mutations", d), || {
            ctl::constant(None);
            let log = Rc::new(RefCell::new(vec![]));
            let mut m = VecMutation::new(50.0, Box::new(RecMut(log.clone(), 0.0)));
            let v: V = vec![1.5; d];
            let mut hit = vec![[0u64; 7]; d];
            for k in 0..400 {
                for (i, x) in m.mutation(&v).iter().enumerate() {
                    if *x != 1.5 {
                        hit[i][k / 64] |= 1 << (k % 64);
                    }
                }
            }
            for i in 0..d {
                for j in i + 1..d {
                    let differ: u32 = (0..7).map(|k| (hit[i][k] ^ hit[j][k]).count_ones()).sum();
                    if differ < 60 || differ > 340 {
                        return Err(format!("genes {} and {} were mutated together or apart in {} of 400 cases: no draw of their own", i, j, differ.max(400 - differ)));
                    }
                }
            }
            Ok(true)
        });
    }
    let n = h.n(800);
    for k in 0..n {
        let cnt = h.r.pick(&[0usize, 0, 1, 1, 2, 3, 5, 8, 20, 65, 0, 1, 2, 300]);
        let bits = match h.r.us(0, 3) { 0 => h.r.real(-5., 5.).to_bits(), 1 => wild(&mut h.r).to_bits(), _ => h.r.next() };
        h.case("bitwise", format!("{} flips of f64 {:#x} and f32 {:#x}, generator mode {}", cnt, bits, bits as u32, k % 4), || {
            raws(k);
            let mut m = BitwiseMutation::new(cnt);
            for _ in 0..2 {
                let g: f64 = m.mutation(&f64::from_bits(bits));
                let d = (g.to_bits() ^ bits).count_ones() as usize;
                if d > cnt || d % 2 != cnt % 2 {
                    return Err(format!("f64 became {:#x}: {} bits differ after {} flips", g.to_bits(), d, cnt));
                }
                let g: f32 = m.mutation(&f32::from_bits(bits as u32));
                let d = (g.to_bits() ^ bits as u32).count_ones() as usize;
                if d > cnt || d % 2 != cnt % 2 {
                    return Err(format!("f32 became {:#x}: {} bits differ after {} flips", g.to_bits(), d, cnt));
                }
            }
            Ok(cnt > 0)
        });
        let d = h.r.wide(0, 6, 80);
        let v: V = (0..d).map(|_| wild(&mut h.r)).collect();
        let p = h.r.pick(&[0.0, 100.0, 50.0, 25.0, 99.0, 1.0, 0.5, 100.0, 75.0]);
        h.case("vec", format!("probability {} over {:?}, generator mode {}", p, v, k % 4), || {
            use rand::distributions::{Distribution, Uniform};
            raws(k);
            let log = Rc::new(RefCell::new(vec![]));
            let mut m = VecMutation::new(p, Box::new(RecMut(log.clone(), 0.0)));
            for _ in 0..3 {
                log.borrow_mut().clear();
                ctl::take_log();
                let o = m.mutation(&v);
                let raw = ctl::take_log();
                if o.len() != d {
                    return Err(format!("{} genes became {}", d, o.len()));
                }
                let l = log.borrow();
                let mut mutated = vec![false; d];
                for i in 0..d {
                    mutated[i] = l.iter().any(|e| e.1 == o[i]);
                    if mutated[i] {
                        if !l.iter().any(|e| e.1 == o[i] && same(e.0, v[i]) && e.0.to_bits() == v[i].to_bits()) {
                            return Err(format!("gene {} is the mutation of another value: {:?} from {:?}", i, o, v));
                        }
                    } else if o[i].to_bits() != v[i].to_bits() {
                        return Err(format!("gene {} is {} but was {} and the mutations were {:?}", i, o[i], v[i], l));
                    }
                }
                if p <= 0.0 && mutated.iter().any(|x| *x) {
                    return Err("mutated at probability 0".into());
                }
                if p >= 100.0 && mutated.iter().any(|x| !*x) {
                    return Err("not mutated at probability 100".into());
                }
                if raw.len() == d && d > 0 {
                    let keep = raw.clone();
                    ctl::script(&keep);
                    let u = Uniform::new(0.0f64, 100.0);
                    let mut g = rand::thread_rng();
                    for i in 0..d {
                        let x = u.sample(&mut g);
                        if (x < p) != mutated[i] {
                            return Err(format!("gene {}: draw {} against probability {}, mutated {}", i, x, p, mutated[i]));
                        }
                    }
                    ctl::script(&[]);
                }
            }
            Ok(d > 0)
        });
    }
}

pub fn c17(h: &mut H) {
    for d in [3usize, 2, 70, 300].iter() {
        let iv: Vec<(f64, f64)> = (0..*d).map(|_| { let a = h.r.real(-50., 50.); (a, a + h.r.real(0.1, 30.)) }).collect();
        h.case("teleport-everywhere", format!("4000 teleports in {:?}", iv), || {
            ctl::constant(None);
            let mut t = RandomTeleport::new(iv.clone(), 1.0);
            let v: Vec<V> = (0..4000).map(|_| { let mut v: V = iv.iter().map(|i| i.0).collect(); t.post_move(&mut v); v }).collect();
            fills("RandomTeleport", &v, &iv)?;
            for p in [0.1f32, 0.5, 0.9].iter() {
                let mut t = RandomTeleport::new(iv.clone(), *p);
                let out: V = iv.iter().map(|i| i.0 - 1.0).collect();
                let gone = (0..4000).filter(|_| { let mut v = out.clone(); t.post_move(&mut v); v != out }).count();
                if (gone as f64 / 4000.0 - *p as f64).abs() > 8.0 * (0.25f64 / 4000.0).sqrt() {
                    return Err(format!("probability {}: teleported {} times out of 4000", p, gone));
                }
            }
            Ok(true)
        });
    }
    let n = h.n(1500);
    for k in 0..n {
        let d = h.r.vast(0, 5, 80);
        let iv: Vec<(f64, f64)> = (0..d).map(|_| { let (a, b) = interval(&mut h.r); if h.r.chance(10) { (a, a) } else { (a, b) } }).collect();
        let x: V = (0..d).map(|i| match h.r.us(0, 4) { 0 => iv[i].0, 1 => iv[i].1, 2 => h.r.real(iv[i].0, iv[i].1), _ => wild(&mut h.r) }).collect();
        h.case("boundary", format!("{:?} in {:?}", x, iv), || {
            let mut m = MoveToBoundary::new(iv.clone());
            let mut y = x.clone();
            m.post_move(&mut y);
            if y.len() != d {
                return Err(format!("{:?}", y));
            }
            for i in 0..d {
                let (a, b) = iv[i];
                let want = if !x[i].is_finite() { a } else if x[i] < a { a } else if x[i] > b { b } else { x[i] };
                if y[i] != want {
                    return Err(format!("coordinate {}: {:e} in [{:e}, {:e}] became {:e}", i, x[i], a, b, y[i]));
                }
            }
            let iv32: Vec<(f32, f32)> = iv.iter().map(|(a, b)| (*a as f32, *b as f32)).collect();
            let x32: Vec<f32> = x.iter().map(|v| *v as f32).collect();
            let mut y32 = x32.clone();
            MoveToBoundary::new(iv32.clone()).post_move(&mut y32);
            for i in 0..d {
                let (a, b) = iv32[i];
                let want = if !x32[i].is_finite() { a } else if x32[i] < a { a } else if x32[i] > b { b } else { x32[i] };
                if y32[i] != want {
                    return Err(format!("f32 coordinate {}: {:e} in [{:e}, {:e}] became {:e}", i, x32[i], a, b, y32[i]));
                }
            }
            Ok(d > 0)
        });
        let p = h.r.pick(&[0.0f32, 1.0, 0.5, 0.01, 0.99, 1.0, 0.0]);
        // positions outside of the intervals
        let out: V = iv.iter().map(|(a, b)| if h.r.chance(50) { a - 1.0 - a.abs() } else { b + 1.0 + b.abs() }).collect();
        h.case("teleport", format!("probability {} {:?} in {:?}, generator mode {}", p, out, iv, k % 4), || {
            raws(k);
            let mut m = RandomTeleport::new(iv.clone(), p);
            for _ in 0..4 {
                let mut y = out.clone();
                m.post_move(&mut y);
                if y.len() != d {
                    return Err(format!("{:?}", y));
                }
                let stay = (0..d).all(|i| y[i].to_bits() == out[i].to_bits());
                let go = (0..d).all(|i| iv[i].0 <= y[i] && y[i] <= iv[i].1);
                if !stay && !go {
                    return Err(format!("became {:?}", y));
                }
                if d > 0 && p == 0.0 && !stay {
                    return Err(format!("teleported at probability 0 to {:?}", y));
                }
                if d > 0 && p == 1.0 && !go {
                    return Err("did not teleport at probability 1".into());
                }
            }
            let iv32: Vec<(f32, f32)> = iv.iter().map(|(a, b)| (*a as f32, *b as f32)).collect();
            let out32: Vec<f32> = out.iter().map(|v| *v as f32).collect();
            let mut y = out32.clone();
            raws(k + 1);
            RandomTeleport::new(iv32.clone(), p).post_move(&mut y);
            let stay = y == out32;
            let go = (0..d).all(|i| iv32[i].0 <= y[i] && y[i] <= iv32[i].1);
            if (!stay && !go) || (d > 0 && p == 0.0 && !stay) || (d > 0 && p == 1.0 && !go) {
                return Err(format!("f32 {:?} became {:?} at probability {}", out32, y, p));
            }
            Ok(d > 0)
        });
    }
    for (p, ok) in [(0.0f32, true), (1.0, true), (0.5, true), (-0.1, false), (1.1, false), (f32::NAN, false), (f32::INFINITY, false), (f32::NEG_INFINITY, false), (1.0000001, false), (-1e-30, false), (-0.0, true), (100.0, false)].iter().cloned() {
        h.case("teleport-new", format!("probability {}", p), || {
            let q = panics(|| RandomTeleport::new(vec![(0.0f64, 1.0)], p));
            if q == ok { Err(format!("accepted: {}", !q)) } else { Ok(true) }
        });
    }
    for a in 0..4usize {
        for b in 0..4usize {
            h.case("mismatch", format!("{} coordinates, {} intervals", a, b), || {
                let iv: Vec<(f64, f64)> = (0..b).map(|_| (0.0, 1.0)).collect();
                let i = iv.clone();
                let q = panics(move || MoveToBoundary::new(i).post_move(&mut vec![0.5; a]));
                if q != (a != b) {
                    return Err(format!("MoveToBoundary panicked: {}", q));
                }
                for p in [0.0f32, 0.5, 1.0].iter() {
                    let i = iv.clone();
                    let q = panics(move || RandomTeleport::new(i, *p).post_move(&mut vec![0.5; a]));
                    if q != (a != b) {
                        return Err(format!("RandomTeleport({}) panicked: {}", p, q));
                    }
                }
                Ok(true)
            });
        }
    }
}

pub fn c18(h: &mut H) {
    let n = h.n(1500);
    for _ in 0..n {
        let d = h.r.vast(0, 5, 80);
        let m: V = (0..d).map(|_| match h.r.us(0, 6) { 0 => 0.0, 1 => f64::INFINITY, 2 => f64::MAX, _ => h.r.real(0.001, 10.) }).collect();
        let v: V = (0..d).map(|i| { let w = match h.r.us(0, 5) { 0 => m[i], 1 => -m[i], 2 => h.r.real(-15., 15.), _ => wild(&mut h.r) }; if w.is_nan() { 1.5 } else { w } }).collect();
        h.case("dimensions", format!("{:?} limited by {:?}", v, m), || {
            let o = MaxVelocityDimensions::new(m.clone()).correct_velocity(v.clone());
            if o.len() != d {
                return Err(format!("{:?}", o));
            }
            for i in 0..d {
                let want = if v[i].abs() <= m[i] { v[i] } else if v[i] < 0.0 { -m[i] } else { m[i] };
                if o[i] != want || (want == 0.0 && v[i] != 0.0 && m[i] != 0.0) {
                    return Err(format!("component {}: {:e} with limit {:e} became {:e}", i, v[i], m[i], o[i]));
                }
            }
            let m3: Vec<f32> = m.iter().map(|x| *x as f32).collect();
            let v3: Vec<f32> = v.iter().map(|x| *x as f32).collect();
            let o = MaxVelocityDimensions::new(m3.clone()).correct_velocity(v3.clone());
            for i in 0..d {
                let want = if v3[i].abs() <= m3[i] { v3[i] } else if v3[i] < 0.0 { -m3[i] } else { m3[i] };
                if o[i] != want {
                    return Err(format!("f32 component {}: {:e} with limit {:e} became {:e}", i, v3[i], m3[i], o[i]));
                }
            }
            Ok(d > 0)
        });
        let scale = h.r.pick(&[1.0, 1.0, 1e-3, 1e3, 1e100, 1e-100]);
        let v: V = (0..d).map(|_| if h.r.chance(10) { 0.0 } else { h.r.real(-10., 10.) * scale }).collect();
        let norm = v.iter().map(|x| (x / scale) * (x / scale)).sum::<f64>().sqrt() * scale;
        let lim = match h.r.us(0, 4) { 0 => norm * 0.5, 1 => norm * 1.000001, 2 => norm * 0.999999, 3 => scale * h.r.real(0.01, 20.), _ => norm * 2.0 };
        h.case("abs", format!("{:?} limited by {:e}", v, lim), || {
            let o = MaxVelocityAbs::new(lim).correct_velocity(v.clone());
            if o.len() != d {
                return Err(format!("{:?}", o));
            }
            if norm <= lim * (1.0 - 1e-12) || norm == 0.0 {
                if (0..d).any(|i| o[i].to_bits() != v[i].to_bits()) {
                    return Err(format!("norm {:e} is within the limit but it became {:?}", norm, o));
                }
            } else if norm > lim * (1.0 + 1e-12) {
                for i in 0..d {
                    let want = v[i] * (lim / norm);
                    if (o[i] - want).abs() > 1e-9 * lim {
                        return Err(format!("component {} became {:e}, expected {:e} (norm {:e})", i, o[i], want, norm));
                    }
                }
            }
            Ok(d > 0)
        });
    }
    for a in 0..4usize {
        for b in 0..4usize {
            h.case("mismatch", format!("{} components, {} limits", a, b), || {
                let q = panics(move || MaxVelocityDimensions::new(vec![1.0f64; b]).correct_velocity(vec![0.5; a]));
                if q != (a != b) { Err(format!("panicked: {}", q)) } else { Ok(true) }
            });
        }
    }
}

pub struct Fake {
    pub it: usize,
    pub best: Option<(V, f64)>,
}
impl AlgorithmState<V> for Fake {
    fn get_best_solution(&self) -> Option<(V, f64)> {
        self.best.clone()
    }
    fn get_iteration(&self) -> usize {
        self.it
    }
}
struct Fixed(Rc<RefCell<Vec<bool>>>, usize, Rc<RefCell<Vec<usize>>>);
impl StopChecker<V> for Fixed {
    fn can_stop(&mut self, s: &dyn AlgorithmState<V>) -> bool {
        self.2.borrow_mut().push(s.get_iteration());
        self.0.borrow()[self.1]
    }
}

pub fn c22(h: &mut H) {
    let n = h.n(600);
    for _ in 0..n {
        let max = h.r.pick(&[0usize, 1, 2, 10, 100, usize::MAX, 1 << 40]);
        let it = match h.r.us(0, 4) { 0 => max, 1 => max.wrapping_sub(1), 2 => max.wrapping_add(1), 3 => 0, _ => h.r.us(0, 200) };
        let th = { let w = wild(&mut h.r); w };
        let best = if h.r.chance(20) { None } else { Some((vec![1.0, 2.0], if h.r.chance(30) { th } else { wild(&mut h.r) })) };
        h.case("simple", format!("MaxIterations({}), Threshold({}) at iteration {} with best {:?}", max, th, it, best), || {
            let s = Fake { it, best: best.clone() };
            let mut m = MaxIterations::new(max);
            let mut t = Threshold::new(th);
            for _ in 0..2 {
                let g = m.can_stop(&s);
                if g != (it >= max) {
                    return Err(format!("MaxIterations answered {}", g));
                }
                let g = t.can_stop(&s);
                let want = match &best { None => false, Some((_, x)) => *x <= th };
                if g != want {
                    return Err(format!("Threshold answered {}", g));
                }
            }
            Ok(true)
        });
        let k = h.r.wide(1, 5, 80);
        let rounds: Vec<Vec<bool>> = (0..4).map(|_| { let p = h.r.pick(&[0u64, 20, 50, 90, 100]); (0..k).map(|_| h.r.chance(p)).collect() }).collect();
        let states: Vec<(usize, Option<(V, f64)>)> = (0..5).map(|_| (h.r.pick(&[0usize, 1, 7, 100, usize::MAX]), if h.r.chance(30) { None } else { Some((vec![wild(&mut h.r)], wild(&mut h.r))) })).collect();
        h.case("composite", format!("members answering {:?} in states {:?}", rounds, states), || {
            let ans = Rc::new(RefCell::new(vec![false; k]));
            let asked = Rc::new(RefCell::new(vec![]));
            let mk = || -> Vec<Box<dyn StopChecker<V>>> { (0..k).map(|i| Box::new(Fixed(ans.clone(), i, asked.clone())) as Box<dyn StopChecker<V>>).collect() };
            let mut any = CompositeAny::new(mk());
            let mut all = CompositeAll::new(mk());
            for (j, r) in rounds.iter().enumerate() {
                *ans.borrow_mut() = r.clone();
                let s = Fake { it: states[j].0, best: states[j].1.clone() };
                let (a, b) = (any.can_stop(&s), all.can_stop(&s));
                if a != r.iter().any(|x| *x) || b != r.iter().all(|x| *x) {
                    return Err(format!("members answered {:?}: any says {}, all says {}", r, a, b));
                }
                if asked.borrow().iter().any(|x| *x != states[j].0) {
                    return Err("a member saw another state".into());
                }
                asked.borrow_mut().clear();
            }
            // nested
            *ans.borrow_mut() = rounds[0].clone();
            let s = Fake { it: 3, best: states[4].1.clone() };
            let mut nest = CompositeAll::new(vec![Box::new(CompositeAny::new(mk())), Box::new(MaxIterations::new(3))]);
            if nest.can_stop(&s) != rounds[0].iter().any(|x| *x) {
                return Err("nested composite".into());
            }
            Ok(true)
        });
    }
    h.case("empty", "no members".into(), || {
        if !panics(|| CompositeAny::<V>::new(vec![])) || !panics(|| CompositeAll::<V>::new(vec![])) {
            return Err("an empty composite was accepted".into());
        }
        Ok(true)
    });
}

pub fn c23(h: &mut H) {
    let n = h.n(2000);
    for _ in 0..n {
        let max = h.r.pick(&[0usize, 1, 2, 3, 5, 10, 1, 2, 3, 300, 70_000, usize::MAX]);
        let delta = h.r.pick(&[0.0, 0.5, 1.0, 1e-6, 10.0, f64::INFINITY]);
        let len = h.r.us(1, 30);
        let mut it = if h.r.chance(80) { 0 } else { h.r.us(0, 5) };
        let mut g = h.r.int(-5, 5) as f64;
        let mut hist = vec![];
        for _ in 0..len {
            if h.r.chance(6) { it = h.r.us(0, 1); } else { it += h.r.pick(&[1usize, 1, 1, 1, 2, 0, 7]) + if h.r.us(0, 99) == 0 { h.r.pick(&[250usize, 66_000, 1 << 33]) } else { 0 }; }
            match h.r.us(0, 9) {
                0 => g = wild(&mut h.r),
                1 => g += delta,
                2 => g -= delta * 1.5,
                3 => g += delta * 0.4,
                _ => (),
            }
            hist.push((it, if h.r.chance(8) { None } else { Some(g) }));
        }
        h.case("history", format!("GoalNotChange({}, {}) sees {:?}", max, delta, hist), || {
            let mut c = GoalNotChange::new(max, delta);
            let (mut old, mut at) = (f64::MAX, 0usize);
            let mut did = false;
            for (k, (it, g)) in hist.iter().enumerate() {
                let got = c.can_stop(&Fake { it: *it, best: g.map(|x| (vec![0.0], x)) });
                let want = match g {
                    None => false,
                    Some(x) => {
                        if (x - old).abs() > delta || *it < at {
                            old = *x;
                            at = *it;
                        }
                        it - at > max
                    }
                };
                did |= want;
                if got != want {
                    return Err(format!("answered {} at check {}, the reference is iteration {} with goal {}", got, k, at, old));
                }
            }
            Ok(did)
        });
    }
}

type Row = Vec<Option<(V, f64)>>;
fn rsame(a: &[Option<(V, f64)>], b: &[Option<(V, f64)>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| crate::ga::osame(x, y))
}
fn stat_eq(s: &Statistics<V>, res: &Row, conv: &Vec<Row>) -> Result<(), String> {
    if !rsame(s.get_results(), res) {
        return Err(format!("results are {:?}, expected {:?}", s.get_results(), res));
    }
    let c = s.get_convergence();
    if c.len() != conv.len() || c.iter().zip(conv).any(|(a, b)| !rsame(a, b)) {
        return Err(format!("convergence is {:?}, expected {:?}", c, conv));
    }
    if s.get_run_count() != res.len() {
        return Err(format!("run count {} for {} results", s.get_run_count(), res.len()));
    }
    Ok(())
}

pub fn c24(h: &mut H) {
    let n = h.n(1000);
    for _ in 0..n {
        let s = h.r.next();
        h.case("history", format!("events from seed {}", s), || {
            let mut r = Rng(s);
            let mut stats: Vec<(Statistics<V>, Row, Vec<Row>)> = (0..2).map(|_| (Statistics::new(), vec![], vec![])).collect();
            let mut trace = vec![];
            let mut any = false;
            for _ in 0..r.few(1, 6, 30) {
                let w = r.us(0, 1);
                let ops = r.vast(1, 8, 100);
                let plan: Vec<(u8, usize, Option<(V, f64)>)> = (0..ops).map(|_| {
                    let b = if r.chance(20) { None } else { Some((vec![r.int(-5, 5) as f64], r.pick(&crate::ga::PAL))) };
                    (r.pick(&[0u8, 1, 2, 2, 2, 2, 3]), r.us(0, 9), b)
                }).collect();
                trace.push((w, plan.clone()));
                {
                    let t = &mut stats[w];
                    let mut l = StatisticsLogger::new(&mut t.0);
                    for (op, it, b) in &plan {
                        let st = Fake { it: *it, best: b.clone() };
                        match op {
                            0 => { l.start(&st); t.2.push(vec![]); }
                            1 => l.resume(&st),
                            2 => {
                                l.next_iteration(&st);
                                if t.2.is_empty() { t.2.push(vec![]); }
                                t.2.last_mut().unwrap().push(b.clone());
                                any = true;
                            }
                            _ => { l.finish(&st); t.1.push(b.clone()); }
                        }
                    }
                }
                for t in &stats {
                    stat_eq(&t.0, &t.1, &t.2).map_err(|m| format!("{} after {:?}", m, trace))?;
                }
                let c = stats[w].0.clone();
                stat_eq(&c, &stats[w].1, &stats[w].2).map_err(|m| format!("the clone: {}", m))?;
                if r.chance(25) {
                    let other = std::mem::replace(&mut stats[1], (Statistics::new(), vec![], vec![]));
                    stats[0].0.unite(other.0);
                    stats[0].1.extend(other.1);
                    stats[0].2.extend(other.2);
                    stat_eq(&stats[0].0, &stats[0].1, &stats[0].2).map_err(|m| format!("after unite: {} ({:?})", m, trace))?;
                }
            }
            Ok(any)
        });
    }
    // attached to a real optimizer
    let n = h.n(80);
    for _ in 0..n {
        let s = h.r.next();
        h.case("attached", format!("genetic optimizer, scenario seed {}", s), || {
            use crate::ga::*;
            use optlib::genetic::GeneticOptimizer;
            use optlib::{IterativeOptimizer, Optimizer};
            let log: Log = Rc::new(RefCell::new(vec![]));
            let mut r = Rng(s);
            let mut stat: Statistics<V> = Statistics::new();
            {
                let np = r.us(1, 6);
                let mut o = GeneticOptimizer::new(
                    Box::new(GoalC(log.clone(), Rng(r.next()), 0)),
                    Box::new(StopC(log.clone(), 1, Rng(r.next()), 20, 4)),
                    Box::new(CreatorC(log.clone(), 1, Rng(r.next()), np)),
                    Box::new(PairC(log.clone(), 1, Rng(r.next()))),
                    Box::new(CrossC(log.clone(), 1, Rng(r.next()))),
                    Box::new(MutC(log.clone(), 1, Rng(r.next()))),
                    vec![Box::new(SelC(log.clone(), 1, 0, Rng(r.next()), 30))],
                    vec![],
                );
                o.set_loggers(vec![Box::new(LogC(log.clone(), 1, 0)), Box::new(StatisticsLogger::new(&mut stat)), Box::new(LogC(log.clone(), 1, 2))]);
                o.find_min();
                for _ in 0..r.us(0, 3) {
                    if r.chance(50) { o.next_iterations(); } else { o.find_min(); }
                }
            }
            let (mut res, mut conv): (Row, Vec<Row>) = (vec![], vec![]);
            for e in log.borrow().iter() {
                if let Ev::Log(_, 0, c, st) = e {
                    match c {
                        's' => conv.push(vec![]),
                        'n' => conv.last_mut().unwrap().push(st.best.clone()),
                        'f' => res.push(st.best.clone()),
                        _ => (),
                    }
                }
            }
            stat_eq(&stat, &res, &conv)?;
            Ok(true)
        });
    }
}

fn mean(v: &[f64]) -> f64 {
    v.iter().sum::<f64>() / v.len() as f64
}
fn dev(v: &[f64]) -> f64 {
    let m = mean(v);
    (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / (v.len() as f64 - 1.0)).sqrt()
}
fn agree(what: &str, got: Option<f64>, want: Option<f64>, tol: f64) -> Result<(), String> {
    let ok = match (got, want) {
        (None, None) => true,
        (Some(a), Some(b)) => close(a, b, tol),
        _ => false,
    };
    if ok { Ok(()) } else { Err(format!("{} is {:?}, expected {:?}", what, got, want)) }
}

pub fn c25(h: &mut H) {
    let n = h.n(1200);
    for k in 0..n {
        let runs = h.r.vast(0, 7, 300);
        let d = if runs > 2000 { 1 } else if runs > 300 { 3 } else { h.r.vast(0, 4, 30) };
        let off = h.r.pick(&[0.0, 0.0, 100.0, -50.0]);
        let pn = h.r.pick(&[0u64, 20, 50, 80, 100]);
        let odd = k % 10 == 9;
        // goals that are large compared with their spread
        let goff = if k % 16 == 3 { 1e9 } else { off };
        let gt = if goff > 1e8 { 1e-3 } else { 1e-7 };
        let res: Row = (0..runs).map(|_| if h.r.chance(pn) { None } else { Some(((0..d).map(|_| off + h.r.real(-9., 9.)).collect(), if odd && h.r.chance(30) { h.r.pick(&[f64::NAN, f64::INFINITY]) } else { goff + h.r.real(-9., 9.) })) }).collect();
        h.case("results", format!("{:?}", res), || {
            let suc: Vec<&(V, f64)> = res.iter().filter_map(|x| x.as_ref()).collect();
            let goals: Vec<f64> = suc.iter().map(|x| x.1).collect();
            let c = suc.len();
            agree("average goal", res.get_average_goal(), if c == 0 { None } else { Some(mean(&goals)) }, 1e-10)?;
            agree("goal deviation", res.get_standard_deviation_goal(), if c < 2 { None } else { Some(dev(&goals)) }, gt)?;
            let cols: Vec<V> = (0..d).map(|i| suc.iter().map(|x| x.0[i]).collect()).collect();
            let a = res.get_average();
            let s = res.get_standard_deviation();
            if a.is_some() != (c > 0) || s.is_some() != (c > 1) {
                return Err(format!("{} solutions: average {:?}, deviation {:?}", c, a, s));
            }
            if let Some((x, g)) = &a {
                agree("goal of the average", Some(*g), Some(mean(&goals)), 1e-10)?;
                if x.len() != d {
                    return Err(format!("average {:?}", x));
                }
                for i in 0..d {
                    agree("average coordinate", Some(x[i]), Some(mean(&cols[i])), 1e-10)?;
                }
            }
            if let Some((x, g)) = &s {
                agree("goal of the deviation", Some(*g), Some(dev(&goals)), gt)?;
                if x.len() != d {
                    return Err(format!("deviation {:?}", x));
                }
                for i in 0..d {
                    agree("deviation of a coordinate", Some(x[i]), Some(dev(&cols[i])), 1e-7)?;
                }
            }
            let r32: Vec<Option<(Vec<f32>, f64)>> = res.iter().map(|x| x.as_ref().map(|y| (y.0.iter().map(|z| *z as f32).collect(), y.1))).collect();
            let (a, s) = (r32.get_average(), r32.get_standard_deviation());
            if a.is_some() != (c > 0) || s.is_some() != (c > 1) {
                return Err(format!("f32, {} solutions: average {:?}, deviation {:?}", c, a, s));
            }
            for i in 0..d {
                if let Some((x, _)) = &a { agree("f32 average coordinate", Some(x[i] as f64), Some(mean(&cols[i])), 1e-3)?; }
                if let Some((x, _)) = &s { agree("f32 deviation of a coordinate", Some(x[i] as f64), Some(dev(&cols[i])), 1e-3)?; }
            }
            Ok(c > 0)
        });
        if k % 20 == 0 {
            let (x, y) = (h.r.us(0, 4), h.r.us(0, 4));
            let gaps: Vec<usize> = (0..3).map(|_| h.r.us(0, 3)).collect();
            let mut list: Row = Vec::new();
            for (i, l) in [x, y, x].iter().enumerate() {
                for _ in 0..gaps[i] { list.push(None); }
                list.push(Some((vec![1.5; *l], i as f64)));
            }
            h.case("mismatch", format!("{:?}", list), || {
                for (w, q) in [("average", panics(|| list.get_average())), ("deviation", panics(|| list.get_standard_deviation()))].iter() {
                    if *q != (x != y) {
                        return Err(format!("solutions of dimensions {} and {}: the {} panicked: {}", x, y, w, q));
                    }
                }
                Ok(true)
            });
        }
        let (nr, ni) = (h.r.vast(0, 5, 60), h.r.vast(6, 6, 40));
        let ni = if nr > 300 { 2 } else { ni };
        let conv: Vec<Row> = (0..nr).map(|_| (0..h.r.us(if k % 3 == 0 { 0 } else { 1.max(ni / 2) }, ni)).map(|_| if h.r.chance(pn) { None } else { Some((vec![], h.r.real(-9., 9.))) }).collect()).collect();
        h.case("convergence", format!("{:?}", conv), || {
            let m = conv.iter().map(|x| x.len()).min().unwrap_or(0);
            if conv.get_min_iterations() != m {
                return Err(format!("get_min_iterations is {}, expected {}", conv.get_min_iterations(), m));
            }
            let a = conv.get_average_convergence();
            if a.len() != m {
                return Err(format!("{} averages, the shortest run has {} iterations", a.len(), m));
            }
            for i in 0..m {
                let g: Vec<f64> = conv.iter().filter_map(|x| x[i].as_ref().map(|y| y.1)).collect();
                agree(&format!("average of iteration {}", i), a[i], if g.is_empty() { None } else { Some(mean(&g)) }, 1e-10)?;
            }
            Ok(m > 0)
        });
        let calls: Vec<usize> = (0..h.r.vast(0, 6, 300)).map(|_| h.r.few(0, 1000, 1 << 44)).collect();
        h.case("calls", format!("{:?}", calls), || {
            let mut c = CallCountData::new();
            for x in &calls {
                c.next_run();
                c.add(*x);
            }
            let f: Vec<f64> = calls.iter().map(|x| *x as f64).collect();
            agree("average call count", c.get_average_call_count(), if f.is_empty() { None } else { Some(mean(&f)) }, 1e-12)?;
            Ok(!f.is_empty())
        });
    }
}

pub fn c26(h: &mut H) {
    let n = h.n(1500);
    for _ in 0..n {
        let runs = h.r.vast(0, 9, 300);
        let pn = if runs > 300 { 0 } else { h.r.pick(&[0u64, 20, 50, 100]) };
        let res: Row = (0..runs).map(|_| if h.r.chance(pn) { None } else { Some((vec![h.r.int(-3, 3) as f64], wild(&mut h.r))) }).collect();
        let t = if runs > 300 { h.r.pick(&[4.0, 4.0, 3.0]) } else { h.r.int(-3, 3) as f64 };
        h.case("rate", format!("{:?}, success is a coordinate below {}", res, t), || {
            let want = res.iter().filter(|x| if let Some((v, _)) = x { v[0] < t } else { false }).count() as f64 / runs as f64;
            let got = res.get_success_rate(|s: &(V, f64)| s.0[0] < t);
            match got {
                None => if runs != 0 { return Err("no rate".into()); },
                Some(x) => {
                    if runs == 0 || (x - want).abs() > 1e-12 || !(0.0..=1.0).contains(&x) {
                        return Err(format!("rate {}, expected {}", x, want));
                    }
                }
            }
            Ok(runs > 0)
        });
        let e = h.r.pick(&[0.0, 1.0, -2.5, 1e10, f64::INFINITY, f64::NAN]);
        let dl = h.r.pick(&[0.0, 0.5, 0.25, 1e-3, f64::INFINITY, -1.0, f64::NAN]);
        let g = match h.r.us(0, 5) { 0 => e + dl, 1 => e - dl, 2 => e + dl * 0.5, 3 => e - dl * 1.5, 4 => e, _ => wild(&mut h.r) };
        h.case("goal-predicate", format!("goal {} expected {} delta {}", g, e, dl), || {
            let p = get_predicate_success_goal::<V>(e, dl);
            let got = p(&(vec![], g));
            if got != ((g - e).abs() < dl) { Err(format!("answered {}", got)) } else { Ok(true) }
        });
        let d = h.r.vast(0, 4, 50);
        let e: V = (0..d).map(|_| if h.r.chance(5) { wild(&mut h.r) } else { h.r.int(-3, 3) as f64 }).collect();
        let dl: V = (0..d).map(|_| h.r.pick(&[0.0, 0.5, 0.25, 2.0, f64::INFINITY, 1.0, 1.0, f64::NAN])).collect();
        let x: V = (0..d).map(|i| match h.r.us(0, 9) { 0 => e[i] + dl[i], 1 => e[i] - dl[i], 2 => e[i] - dl[i] * 1.5, 3 => wild(&mut h.r), 4 => e[i], _ => e[i] + dl[i] * 0.5 }).collect();
        h.case("vector-predicate", format!("solution {:?} expected {:?} delta {:?}", x, e, dl), || {
            let want = (0..d).all(|i| (x[i] - e[i]).abs() <= dl[i]);
            let p = get_predicate_success_vec_solution(e.clone(), dl.clone());
            let got = p(&(x.clone(), 0.0));
            if got != want { Err(format!("answered {}", got)) } else { Ok(d > 0) }
        });
    }
    for a in 0..4usize {
        for b in 0..4usize {
            h.case("mismatch", format!("{} expected values, {} deltas", a, b), || {
                let q = panics(|| get_predicate_success_vec_solution(vec![0.0f64; a], vec![1.0; b]));
                if q != (a != b) { Err(format!("panicked: {}", q)) } else { Ok(true) }
            });
        }
    }
}

struct RecGoal(Rc<RefCell<Vec<(V, f64)>>>, Rng);
impl Goal<V> for RecGoal {
    fn get(&mut self, x: &V) -> f64 {
        let v = wild(&mut self.1);
        self.0.borrow_mut().push((x.clone(), v));
        v
    }
}

thread_local! { static PLAIN: RefCell<Vec<(V, f64)>> = RefCell::new(vec![]); }
/// a plain function that records its calls and is not pure
fn plain(x: &V) -> f64 {
    PLAIN.with(|p| {
        let mut p = p.borrow_mut();
        let k = p.len();
        let v = if k % 5 == 4 { f64::NAN } else if k % 7 == 3 { -0.0 } else { x.iter().sum::<f64>() + k as f64 };
        p.push((x.clone(), v));
        v
    })
}

pub fn c27(h: &mut H) {
    let n = h.n(1500);
    for _ in 0..n / 10 + 1 {
        let s = h.r.next();
        h.case("GoalFromFunction", format!("calls from seed {}", s), || {
            let mut r = Rng(s);
            PLAIN.with(|p| p.borrow_mut().clear());
            let mut g = optlib::GoalFromFunction::new(plain);
            let mut mine = vec![];
            for _ in 0..r.few(1, 12, 200) {
                let x = if r.chance(30) && !mine.is_empty() { let k = r.us(0, mine.len() - 1); let (x, _): &(V, f64) = &mine[k]; x.clone() } else { (0..r.us(0, 4)).map(|_| wild(&mut r)).collect() };
                let v = g.get(&x);
                mine.push((x, v));
                let seen = PLAIN.with(|p| p.borrow().clone());
                if seen.len() != mine.len() || seen.iter().zip(&mine).any(|(a, b)| !vsame(&a.0, &b.0) || a.1.to_bits() != b.1.to_bits()) {
                    return Err(format!("asked and answered {:?}, the function saw and returned {:?}", mine, seen));
                }
            }
            Ok(true)
        });
    }
    for _ in 0..n {
        let s = h.r.next();
        h.case("counting", format!("operations from seed {}", s), || {
            let mut r = Rng(s);
            let mut c = CallCountData::new();
            let mut m: Vec<usize> = vec![];
            let log = Rc::new(RefCell::new(vec![]));
            let mut goal = RecGoal(log.clone(), Rng(r.next()));
            let mut trace = vec![];
            fn cur(m: &mut Vec<usize>) -> &mut usize {
                if m.is_empty() {
                    m.push(0);
                }
                m.last_mut().unwrap()
            }
            for _ in 0..r.few(1, 12, 120) {
                let op = r.us(0, 4);
                let k = r.vast(0, 5, 300);
                trace.push((op, k));
                match op {
                    0 => { c.next_run(); m.push(0); }
                    1 => { c.increment(); *cur(&mut m) += 1; }
                    2 => {
                        let k = if r.chance(10) { r.pick(&[u16::MAX as usize + 1, u32::MAX as usize, u32::MAX as usize + 2, 1 << 40]) } else { k };
                        c.add(k);
                        *cur(&mut m) += k;
                    }
                    3 => {
                        let mut w = GoalCalcStatistics::new(&mut goal, &mut c);
                        for _ in 0..k {
                            let x = vec![r.real(-1., 1.), wild(&mut r)];
                            log.borrow_mut().clear();
                            let g = w.get(&x);
                            let l = log.borrow();
                            if l.len() != 1 || !vsame(&l[0].0, &x) || l[0].1.to_bits() != g.to_bits() {
                                return Err(format!("asked {:?} and got {}, the wrapped goal saw {:?}", x, g, l));
                            }
                            *cur(&mut m) += 1;
                        }
                    }
                    _ => {
                        let mut o = CallCountData::new();
                        for i in 0..k {
                            o.next_run();
                            o.add(i * 3);
                            m.push(i * 3);
                        }
                        c.unite(o);
                    }
                }
                if c.get_call_count() != m || c.clone().get_call_count() != m {
                    return Err(format!("counts {:?}, expected {:?} after {:?}", c.get_call_count(), m, trace));
                }
            }
            Ok(true)
        });
    }
}

pub fn c30(h: &mut H) {
    use optlib_testfunc::*;
    let n = h.n(1500);
    for _ in 0..n {
        let d = h.r.vast(1, 8, 700);
        let sc = h.r.pick(&[1.0, 5.12, 500.0, 2.0, 0.01]);
        let x: V = (0..d).map(|i| match h.r.us(0, 6) { 0 => 0.0, 1 => 1.0, 2 => (i + 1) as f64, _ => h.r.real(-sc, sc) }).collect();
        h.case("point", format!("{:?}", x), || {
            let x32: Vec<f32> = x.iter().map(|v| *v as f32).collect();
            let y: V = x32.iter().map(|v| *v as f64).collect();
            let fs: [(&str, fn(&V) -> f64, fn(&Vec<f32>) -> f64, fn(&[f64]) -> (f64, f64)); 4] = [
                ("paraboloid", paraboloid::<f64>, paraboloid::<f32>, |x| {
                    let t: V = x.iter().enumerate().map(|(i, v)| (v - (i + 1) as f64).powi(2)).collect();
                    (t.iter().sum(), t.iter().sum::<f64>() + 1.0)
                }),
                ("schwefel", schwefel::<f64>, schwefel::<f32>, |x| {
                    (418.9829 * x.len() as f64 - x.iter().map(|v| v * v.abs().sqrt().sin()).sum::<f64>(), 419.0 * x.len() as f64 + 3.0 * x.iter().map(|v| v.abs()).sum::<f64>())
                }),
                ("rastrigin", rastrigin::<f64>, rastrigin::<f32>, |x| {
                    let pi2 = 2.0 * std::f64::consts::PI;
                    (10.0 * x.len() as f64 + x.iter().map(|v| v * v - 10.0 * (pi2 * v).cos()).sum::<f64>(), 10.0 * x.len() as f64 + x.iter().map(|v| v * v + 100.0 * v.abs()).sum::<f64>())
                }),
                ("rosenbrock", rosenbrock::<f64>, rosenbrock::<f32>, |x| {
                    let t: V = x.windows(2).map(|w| 100.0 * (w[1] - w[0] * w[0]).powi(2) + (1.0 - w[0]).powi(2)).collect();
                    (t.iter().sum(), t.iter().sum::<f64>() + 100.0 * x.iter().map(|v| v.powi(4) + v * v).sum::<f64>())
                }),
            ];
            for (w, f, f3, rf) in fs.iter() {
                let (g, (e, sz)) = (f(&x), rf(&x));
                if (g - e).abs() > 1e-10 * (1.0 + d as f64 / 50.0) * (1.0 + sz) || g.is_nan() {
                    return Err(format!("{} is {}, expected {}", w, g, e));
                }
                let (g, (e, sz)) = (f3(&x32), rf(&y));
                if (g - e).abs() > 3e-5 * (1.0 + d as f64 / 50.0) * (1.0 + sz) || g.is_nan() {
                    return Err(format!("{} over f32 {:?} is {}, expected {}", w, x32, g, e));
                }
            }
            // the value depends on nothing but the point
            for (w, f, _, _) in fs.iter() {
                let a = f(&x);
                let _ = f(&vec![0.5; d + 1]);
                if f(&x).to_bits() != a.to_bits() {
                    return Err(format!("{} gave two values for one point", w));
                }
            }
            Ok(true)
        });
    }
}

// ---------------------------------------------------------------- text loggers

/// takes a few bytes at a time
struct Sink(Rc<RefCell<Vec<u8>>>, usize);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = if self.1 == 0 { b.len() } else { b.len().min(self.1) };
        self.0.borrow_mut().extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn numbers(s: &str) -> Vec<String> {
    s.split_whitespace().filter(|w| w.parse::<f64>().is_ok()).map(|w| w.to_string()).collect()
}
/// the words that are not numbers contain no digits (a value glued to something)
fn glued(s: &str) -> bool {
    s.split_whitespace().any(|w| w.parse::<f64>().is_err() && w.chars().any(|c| c.is_ascii_digit()))
}
struct IntState(usize, Option<(Vec<i64>, f64)>);
impl AlgorithmState<Vec<i64>> for IntState {
    fn get_best_solution(&self) -> Option<(Vec<i64>, f64)> {
        self.1.clone()
    }
    fn get_iteration(&self) -> usize {
        self.0
    }
}
fn log_case<T: std::fmt::Display + Clone, S: AlgorithmState<Vec<T>>>(precision: usize, chunk: usize, calls: &[(usize, S)], result_only: bool) -> R {
    let buf = Rc::new(RefCell::new(vec![]));
    let mut sink = Sink(buf.clone(), chunk);
    let mut verbose;
    let mut only;
    let logger: &mut dyn Logger<Vec<T>> = if result_only {
        only = optlib::tools::logging::ResultOnlyLogger::new(&mut sink, precision);
        &mut only
    } else {
        verbose = optlib::tools::logging::VerboseLogger::new(&mut sink, precision);
        &mut verbose
    };
    let mut printed = false;
    for (n, (call, s)) in calls.iter().enumerate() {
        buf.borrow_mut().clear();
        match call {
            0 => logger.start(s),
            1 => logger.resume(s),
            2 => logger.next_iteration(s),
            _ => logger.finish(s),
        }
        let out = String::from_utf8_lossy(&buf.borrow()).to_string();
        let best = s.get_best_solution();
        let mut want: Vec<String> = vec![];
        let speaks = if result_only { *call == 3 } else { *call == 2 && best.is_some() };
        if !speaks {
            if !out.is_empty() {
                return Err(format!("call {} (kind {}) wrote {:?}", n, call, out));
            }
            continue;
        }
        printed = true;
        if !result_only {
            want.push(s.get_iteration().to_string());
        }
        if let Some((x, g)) = &best {
            want.extend(x.iter().map(|x| format!("{:.*}", precision, x)));
            want.push(format!("{:.*}", precision, g));
        }
        if result_only {
            want.push(s.get_iteration().to_string());
        }
        if numbers(&out) != want || glued(&out) {
            return Err(format!("call {} printed {:?}, the values are {:?}", n, out, want));
        }
        if !out.ends_with('\n') {
            return Err(format!("call {}: the last line is not finished: {:?}", n, out));
        }
        if !result_only && out.matches('\n').count() != 1 {
            return Err(format!("call {} printed {} lines", n, out.matches('\n').count()));
        }
        if result_only && best.is_none() {
            let first = out.lines().next().unwrap_or("");
            if !numbers(first).is_empty() || !first.chars().any(|c| c.is_alphabetic()) {
                return Err(format!("call {} does not say that nothing was found: {:?}", n, out));
            }
        }
    }
    Ok(printed)
}
pub fn c29(h: &mut H) {
    use optlib::tools::logging::TimeLogger;
    let n = h.n(400);
    for _ in 0..n {
        let precision = h.r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 8, 10, 15, 16, 17, 20, 30]);
        let chunk = h.r.pick(&[0usize, 1, 3, 7]);
        let len = h.r.wide(1, 12, 60);
        let only = h.r.chance(50);
        let mut calls = vec![];
        let mut ints = vec![];
        for _ in 0..len {
            let call = h.r.us(0, 3);
            let it = h.r.pick(&[0usize, 1, 9, 10, 99, 100, 12345678, 123456789, 255, 65536, 1 << 33, usize::MAX, 7]);
            let dim = h.r.pick(&[0usize, 1, 1, 2, 3, 5, 17]);
            let mut x: V = vec![];
            for _ in 0..dim {
                let v = wild(&mut h.r);
                let v = if h.r.chance(20) { h.r.pick(&[-123456789012.3456, 1e15, -9.99999999e19, 0.000123456789, 99999.99999, 0.5, 2.5, -0.04]) } else { v };
                x.push(v);
            }
            let g = wild(&mut h.r);
            let best = if h.r.chance(20) { None } else { Some((x.clone(), g)) };
            ints.push((call, IntState(it, if h.r.chance(20) { None } else { Some((x.iter().map(|v| *v as i64).collect(), g)) })));
            calls.push((call, Fake { it, best }));
        }
        let name = if only { "result" } else { "verbose" };
        let desc = calls.iter().map(|(c, s)| format!("{} at iteration {} with {:?}", ["start", "resume", "next", "finish"][*c], s.it, s.best)).collect::<Vec<_>>().join("; ");
        h.case(name, format!("precision {}, writer taking {} bytes at a time, calls {}", precision, chunk, desc), || log_case(precision, chunk, &calls, only));
        let desc = ints.iter().map(|(c, s)| format!("{} at iteration {} with {:?}", ["start", "resume", "next", "finish"][*c], s.0, s.1)).collect::<Vec<_>>().join("; ");
        h.case(name, format!("precision {}, whole numbers, calls {}", precision, desc), || log_case(precision, chunk, &ints, only));
    }
    let waits: Vec<Vec<(u64, u64)>> = vec![vec![(0, 0)], vec![(30, 5), (0, 40)], vec![(0, 60), (10, 0), (10, 20)], vec![(0, 1150), (0, 3)]];
    for w in &waits {
        h.case("time", format!("(wait before resume, wait before finish) in ms: {:?}", w), || {
            let buf = Rc::new(RefCell::new(vec![]));
            let mut sink = Sink(buf.clone(), 0);
            let mut t = TimeLogger::new(&mut sink);
            let l: &mut dyn Logger<V> = &mut t;
            let s = Fake { it: 3, best: Some((vec![1.0], 2.0)) };
            let none = Fake { it: 0, best: None };
            l.start(&none);
            for (k, (a, b)) in w.iter().enumerate() {
                std::thread::sleep(std::time::Duration::from_millis(*a));
                let outer = std::time::Instant::now();
                l.resume(if k == 0 { &none } else { &s });
                let inner = std::time::Instant::now();
                std::thread::sleep(std::time::Duration::from_millis(*b));
                l.next_iteration(&s);
                if !buf.borrow().is_empty() {
                    return Err("written before the end of the run".into());
                }
                let least = inner.elapsed().as_millis();
                l.finish(&s);
                let most = outer.elapsed().as_millis();
                let out = String::from_utf8_lossy(&buf.borrow()).to_string();
                buf.borrow_mut().clear();
                if out.matches('\n').count() != 1 || !out.ends_with('\n') {
                    return Err(format!("run {} printed {:?}", k, out));
                }
                let v = numbers(&out);
                let ms = match (v.len(), v.first().and_then(|x| x.parse::<u128>().ok())) {
                    (1, Some(x)) => x,
                    _ => return Err(format!("run {} printed {:?}", k, out)),
                };
                if ms < least || ms > most {
                    return Err(format!("run {} printed {:?}, it took between {} and {} ms", k, out, least, most));
                }
            }
            Ok(true)
        });
    }
}
