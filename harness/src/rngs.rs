//! Random sources for the shuffle monitors: hostile ones that still let a rejection sampler finish.
use rand::{Error, RngCore};

use crate::rng::mix;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Const(u64),
    Counter(u64, u64),
    Alternate(u64, u64),
    Period(Vec<u64>),
    SplitMix(u64),
    XorShift(u64),
    Lcg(u64),
    /// Only the low or only the high bits carry anything.
    Masked(u64, u64),
    Bit(u64),
}

/// Draws from `kind` for `hostile` draws, then from a good generator, so that any rejection loop ends.
#[derive(Clone, Debug, PartialEq)]
pub struct Source {
    pub kind: Kind,
    pub hostile: u64,
    pub drawn: u64,
    /// How many random bits were handed out.
    pub bits: u64,
    good: u64,
    s: u64,
}

impl Source {
    pub fn new(kind: Kind, hostile: u64, seed: u64) -> Self {
        let s = match &kind {
            Kind::Counter(a, _) => *a,
            Kind::SplitMix(a) | Kind::XorShift(a) | Kind::Lcg(a) | Kind::Masked(a, _) | Kind::Bit(a) => *a,
            _ => 0,
        };
        Source { kind, hostile, drawn: 0, bits: 0, good: mix(seed), s }
    }
    fn draw(&mut self) -> u64 {
        self.drawn += 1;
        if self.drawn > self.hostile {
            self.good = self.good.wrapping_add(0x9e3779b97f4a7c15);
            return mix(self.good);
        }
        let n = self.drawn;
        match &self.kind {
            Kind::Const(x) => *x,
            Kind::Counter(_, step) => {
                self.s = self.s.wrapping_add(*step);
                self.s
            }
            Kind::Alternate(a, b) => if n % 2 == 0 { *a } else { *b },
            Kind::Period(v) => v[n as usize % v.len()],
            Kind::SplitMix(_) => {
                self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
                mix(self.s)
            }
            Kind::XorShift(_) => {
                self.s |= 1;
                self.s ^= self.s << 13;
                self.s ^= self.s >> 7;
                self.s ^= self.s << 17;
                self.s
            }
            Kind::Lcg(_) => {
                self.s = self.s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                self.s
            }
            Kind::Masked(_, m) => {
                self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
                mix(self.s) & *m
            }
            Kind::Bit(_) => {
                self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
                1u64 << (mix(self.s) & 63)
            }
        }
    }
}

impl RngCore for Source {
    fn next_u32(&mut self) -> u32 { self.bits += 32; (self.draw() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { self.bits += 64; self.draw() }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.bits += 8 * d.len() as u64;
        for c in d.chunks_mut(8) {
            let b = self.draw().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
