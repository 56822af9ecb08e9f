//! Small helpers: hashing, deterministic random source, choice tapes.
use rand_chacha::ChaCha8Rng;
use rand_core::{RngCore, SeedableRng};

/// 64-bit FNV-1a followed by a finalizer; used for all "protocol contents" in the harness.
#[derive(Clone)]
pub struct H(u64);
impl H {
    pub fn new(tag: &str) -> Self {
        let mut h = H(0xcbf29ce484222325);
        h = h.b(tag.as_bytes());
        h
    }
    pub fn b(mut self, bytes: &[u8]) -> Self {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
        self.0 ^= bytes.len() as u64 ^ 0x5bd1e995;
        self.0 = self.0.wrapping_mul(0x100000001b3);
        self
    }
    pub fn u(self, x: u64) -> Self {
        self.b(&x.to_be_bytes())
    }
    pub fn f(&self) -> u64 {
        let mut z = self.0.wrapping_add(0x9e3779b97f4a7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

pub fn rng_from(seed: u64) -> ChaCha8Rng {
    ChaCha8Rng::seed_from_u64(seed)
}

/// A tape of choices. All generated inputs, schedules and faults of a case are read off one tape,
/// so a case is replayed and shrunk by replaying and shrinking the tape.
pub struct Gen {
    tape: Vec<u32>,
    pos: usize,
    rng: Option<ChaCha8Rng>,
}

impl Gen {
    pub fn random(seed: u64) -> Self {
        Gen { tape: Vec::new(), pos: 0, rng: Some(ChaCha8Rng::seed_from_u64(seed)) }
    }
    pub fn replay(tape: Vec<u32>) -> Self {
        Gen { tape, pos: 0, rng: None }
    }
    pub fn used(&self) -> &[u32] {
        &self.tape[..self.pos.min(self.tape.len())]
    }
    /// Values on the tape are already reduced modulo `n`, so that equal tapes mean equal cases.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = if self.pos < self.tape.len() {
            let v = self.tape[self.pos] as usize % n;
            self.tape[self.pos] = v as u32;
            v
        } else if let Some(rng) = &mut self.rng {
            let v = (rng.next_u32() as u64 * n as u64 >> 32) as usize;
            self.tape.push(v as u32);
            v
        } else {
            self.tape.push(0);
            0
        };
        self.pos += 1;
        v
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability of about `num`/`den`; shrinks towards false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn u64(&mut self) -> u64 {
        // small tapes: one draw expanded
        let a = self.below(1 << 30) as u64;
        H::new("gen").u(a).f()
    }
    pub fn mask(&mut self, n: usize) -> u16 {
        self.below(1 << n) as u16
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.below(max + 1);
        (0..n).map(|_| self.below(256) as u8).collect()
    }
}

pub fn bits(mask: u16) -> impl Iterator<Item = usize> {
    (0..16).filter(move |i| mask & (1 << i) != 0)
}
