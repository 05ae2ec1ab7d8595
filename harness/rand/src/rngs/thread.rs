// Replaces rand 0.7.3's thread-local generator for the replay harness: a seeded generator whose
// raw outputs can be scripted and are recorded.  Nothing else of the crate is changed.

use std::cell::RefCell;
use std::collections::VecDeque;

use crate::{CryptoRng, Error, RngCore};

struct State { x: u64, constant: Option<u64>, script: VecDeque<u64>, log: Vec<u64> }

thread_local!(static STATE: RefCell<State> = RefCell::new(State { x: 0x9E37_79B9_7F4A_7C15, constant: None, script: VecDeque::new(), log: Vec::new() }));

fn draw() -> u64 {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        let v = if let Some(v) = s.script.pop_front() { v } else if let Some(c) = s.constant { c } else {
            s.x = s.x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = s.x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        };
        s.log.push(v);
        v
    })
}

/// Control of the replacement generator.
pub mod ctl {
    use super::STATE;
    /// Seed; clears script, constant and log.
    pub fn seed(x: u64) { STATE.with(|s| { let mut s = s.borrow_mut(); s.x = x; s.constant = None; s.script.clear(); s.log.clear(); }) }
    /// Always return the same raw value (None: seeded again).
    pub fn constant(c: Option<u64>) { STATE.with(|s| s.borrow_mut().constant = c) }
    /// Raw values to return first.
    pub fn script(v: &[u64]) { STATE.with(|s| { let mut s = s.borrow_mut(); s.script.clear(); s.script.extend(v.iter().cloned()); }) }
    /// Raw values returned since the last call.
    pub fn take_log() -> Vec<u64> { STATE.with(|s| std::mem::replace(&mut s.borrow_mut().log, Vec::new())) }
}

/// Handle of the replacement generator.
#[derive(Copy, Clone, Debug)]
pub struct ThreadRng { _private: std::marker::PhantomData<*mut ()> }

/// Retrieve the generator.
pub fn thread_rng() -> ThreadRng { ThreadRng { _private: std::marker::PhantomData } }

impl Default for ThreadRng { fn default() -> ThreadRng { thread_rng() } }

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 { (draw() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { draw() }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = (draw() >> 56) as u8; } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}

impl CryptoRng for ThreadRng {}
