//! Random sources: the harness' own generator and hostile streams to hand to
//! the code under test.
use rand::{Error, RngCore};

/// xoshiro256** seeded through splitmix64.
#[derive(Clone, Debug)]
pub struct Rg {
  s: [u64; 4],
}

impl Rg {
  pub fn new(seed: u64) -> Rg {
    let mut x = seed;
    let mut next = || {
      x = x.wrapping_add(0x9E3779B97F4A7C15);
      let mut z = x;
      z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
      z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
      z ^ (z >> 31)
    };
    Rg { s: [next(), next(), next(), next()] }
  }
  pub fn u64(&mut self) -> u64 {
    let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = self.s[1] << 17;
    self.s[2] ^= self.s[0];
    self.s[3] ^= self.s[1];
    self.s[1] ^= self.s[2];
    self.s[0] ^= self.s[3];
    self.s[2] ^= t;
    self.s[3] = self.s[3].rotate_left(45);
    r
  }
  /// Uniform in 0..n (n > 0).
  pub fn below(&mut self, n: usize) -> usize {
    ((self.u64() as u128 * n as u128) >> 64) as usize
  }
  /// Uniform in lo..=hi.
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
    let w = (hi as i128 - lo as i128 + 1) as u128;
    let r = if w > u64::MAX as u128 { self.u64() as u128 } else { (self.u64() as u128 * w) >> 64 };
    (lo as i128 + r as i128) as i64
  }
  pub fn chance(&mut self, num: u32, den: u32) -> bool {
    (self.below(den as usize) as u32) < num
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }
  pub fn shuffle<T>(&mut self, xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
      let j = self.below(i + 1);
      xs.swap(i, j);
    }
  }
  pub fn fork(&mut self) -> Rg {
    Rg::new(self.u64())
  }
}

impl RngCore for Rg {
  fn next_u32(&mut self) -> u32 {
    (self.u64() >> 32) as u32
  }
  fn next_u64(&mut self) -> u64 {
    self.u64()
  }
  fn fill_bytes(&mut self, dest: &mut [u8]) {
    for b in dest.iter_mut() {
      *b = (self.u64() >> 56) as u8
    }
  }
  fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
    self.fill_bytes(dest);
    Ok(())
  }
}

/// Streams whose high bits are steered, so that index choices mostly go to the
/// first, the last, alternating, or a slowly moving element. One word in nine is
/// fair, because the sampling in the `rand` crate rejects some steered words.
#[derive(Clone, Debug)]
pub enum Hostile {
  Fair(Rg),
  Low(Rg),
  High(Rg),
  Alternate(Rg, bool),
  Sweep(Rg, u64, u64),
  Sticky(Rg, u64, u32),
  /// exactly zero forever
  Zero,
  /// a few words over and over for a while, then fair: whatever retries on a
  /// bad draw has to retry often
  Late(Rg, Vec<u64>, usize),
}

impl Hostile {
  pub fn late(r: &mut Rg) -> Hostile {
    let words = (0..1 + r.below(3)).map(|_| match r.below(4) {
      0 => 0,
      1 => !0,
      2 => 1 << r.below(64),
      _ => r.u64(),
    });
    let words = words.collect();
    let k = r.below(13);
    Hostile::Late(r.fork(), words, (1 << k) + r.below(1 << k))
  }
  pub fn pick(r: &mut Rg) -> Hostile {
    let f = r.fork();
    match r.below(9) {
      6 => Hostile::late(r),
      0 => Hostile::Low(f),
      1 => Hostile::High(f),
      2 => Hostile::Alternate(f, false),
      3 => Hostile::Sweep(f, 0, r.u64() >> 6),
      4 => Hostile::Sticky(f, r.u64(), 0),
      5 => Hostile::Zero,
      _ => Hostile::Fair(f),
    }
  }
  pub fn name(&self) -> &'static str {
    match self {
      Hostile::Fair(_) => "fair",
      Hostile::Low(_) => "low",
      Hostile::High(_) => "high",
      Hostile::Alternate(..) => "alternate",
      Hostile::Sweep(..) => "sweep",
      Hostile::Sticky(..) => "sticky",
      Hostile::Zero => "zero",
      Hostile::Late(..) => "late",
    }
  }
  fn word(&mut self) -> u64 {
    const LOW: u64 = (1 << 40) - 1;
    match self {
      Hostile::Low(r) | Hostile::High(r) | Hostile::Alternate(r, _) | Hostile::Sweep(r, ..) | Hostile::Sticky(r, ..) => {
        if r.below(9) == 0 {
          return r.u64();
        }
      }
      _ => {}
    }
    match self {
      Hostile::Fair(r) => r.u64(),
      Hostile::Low(r) => r.u64() & LOW,
      Hostile::High(r) => r.u64() | !LOW,
      Hostile::Alternate(r, b) => {
        *b = !*b;
        if *b {
          r.u64() & LOW
        } else {
          r.u64() | !LOW
        }
      }
      Hostile::Sweep(r, at, step) => {
        *at = at.wrapping_add(*step);
        (*at & !LOW) | (r.u64() & LOW)
      }
      Hostile::Sticky(r, v, n) => {
        *n += 1;
        if *n > 7 {
          *n = 0;
          *v = r.u64();
        }
        (*v & !LOW) | (r.u64() & LOW)
      }
      Hostile::Zero => 0,
      Hostile::Late(r, w, left) => {
        if *left == 0 {
          return r.u64();
        }
        *left -= 1;
        w[*left % w.len()]
      }
    }
  }
}

impl RngCore for Hostile {
  fn next_u32(&mut self) -> u32 {
    // keep the low bits of the 32-bit word random as well
    match self {
      Hostile::Zero => 0,
      Hostile::Fair(r) => (r.u64() >> 32) as u32,
      Hostile::Late(..) => (self.word() >> 32) as u32,
      _ => {
        let w = self.word();
        ((w >> 32) as u32 & 0xFFFF_FF00) | (w as u32 & 0xFF)
      }
    }
  }
  fn next_u64(&mut self) -> u64 {
    self.word()
  }
  fn fill_bytes(&mut self, dest: &mut [u8]) {
    for b in dest.iter_mut() {
      *b = (self.word() >> 56) as u8
    }
  }
  fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
    self.fill_bytes(dest);
    Ok(())
  }
}
