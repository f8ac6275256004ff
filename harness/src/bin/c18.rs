use rgeometry::algorithms::zhash::{zhash_pair, zunhash_pair, ZHashBox, ZHashable};
use rgeometry::data::Point;
use rgmon::rng::Rg;
use rgmon::*;

fn spec(a: u32, b: u32) -> u64 {
  let mut w = 0u64;
  for i in 0..32 {
    w |= ((a >> i & 1) as u64) << (2 * i);
    w |= ((b >> i & 1) as u64) << (2 * i + 1);
  }
  w
}
fn unspec(w: u64) -> (u32, u32) {
  let (mut a, mut b) = (0, 0);
  for i in 0..32 {
    a |= ((w >> (2 * i) & 1) as u32) << i;
    b |= ((w >> (2 * i + 1) & 1) as u32) << i;
  }
  (a, b)
}
fn word(r: &mut Rg) -> u64 {
  match r.below(6) {
    0 => r.u64(),
    1 => r.u64() & r.u64() & r.u64(),
    2 => r.u64() | r.u64() | r.u64(),
    3 => 1u64 << r.below(64),
    4 => (1u64 << r.below(64)).wrapping_sub(1),
    _ => r.u64() >> r.below(64),
  }
}
fn pair(ctx: &mut Ctx, a: u32, b: u32) -> Res {
  let h = zhash_pair(a, b);
  ck!(h == spec(a, b), "zhash_pair({}, {}) is {:#x}, interleaved {:#x}", a, b, h, spec(a, b));
  ck!(zunhash_pair(h) == (a, b), "zunhash_pair(zhash_pair({}, {})) is {:?}", a, b, zunhash_pair(h));
  ctx.evals(2);
  Ok(())
}
fn bits(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for _ in 0..200 {
    let (a, b) = (word(r) as u32, word(r) as u32);
    pair(ctx, a, b)?;
    ctx.nontrivial((a, b));
    let w = word(r);
    ck!(zunhash_pair(w) == unspec(w), "zunhash_pair({:#x}) is {:?}, exactly {:?}", w, zunhash_pair(w), unspec(w));
    ctx.eval();
    let (x, y) = zunhash_pair(w);
    ck!(zhash_pair(x, y) == w, "zhash_pair(zunhash_pair({:#x})) is {:#x}", w, zhash_pair(x, y));
    ctx.eval();
  }
  ctx.count("bits");
  Ok(())
}
/// All 16-bit low and high halves against fixed partners.
fn halves(ctx: &mut Ctx) -> Res {
  let c = ctx.case as u32;
  for k in 0..1024u32 {
    let v = c * 1024 + k;
    for a in [v, v << 16, v | v << 16, !v] {
      pair(ctx, a, 0)?;
      pair(ctx, 0, a)?;
      pair(ctx, a, !a)?;
    }
  }
  ctx.count("halves");
  ctx.nontrivial(c);
  Ok(())
}
trait Val: ZHashable + Copy + PartialOrd + std::fmt::Debug {
  const N: &'static str;
  fn draw(r: &mut Rg) -> Self;
  /// some value in lo..=hi
  fn between(r: &mut Rg, lo: Self, hi: Self) -> Self;
  /// whether every value of lo..=hi can have a 32-bit number of its own
  fn fits(lo: Self, hi: Self) -> bool;
}
macro_rules! val_int {
  ($t:ty) => {
    impl Val for $t {
      const N: &'static str = stringify!($t);
      fn draw(r: &mut Rg) -> Self {
        match r.below(7) {
          0 => <$t>::MIN,
          1 => <$t>::MAX,
          2 => word(r) as $t,
          3 => 0,
          4 => (<$t>::MAX / 2).wrapping_add(r.below(3) as $t).wrapping_sub(1),
          5 => word(r) as $t,
          _ => r.below(4) as $t,
        }
      }
      fn between(r: &mut Rg, lo: Self, hi: Self) -> Self {
        let w = (hi as i128 - lo as i128) as u128;
        let o = match r.below(6) {
          0 => 0,
          1 => w,
          2 => w.min(1),
          3 => w - w.min(1),
          4 => w.min(word(r) as u128),
          _ => (r.u64() as u128 * (w + 1)) >> 64,
        };
        (lo as i128 + o as i128) as $t
      }
      fn fits(lo: Self, hi: Self) -> bool {
        hi as i128 - (lo as i128) < 1 << 32
      }
    }
  };
}
val_int!(i8);
val_int!(i64);
val_int!(u64);
val_int!(u32);
impl Val for f64 {
  const N: &'static str = "f64";
  fn draw(r: &mut Rg) -> Self {
    let s = if r.chance(1, 2) { 1.0 } else { -1.0 };
    match r.below(7) {
      0 => 0.0,
      1 => -0.0,
      2 => s * r.u64() as f64,
      3 => s * (r.u64() >> 11) as f64 / (1u64 << 53) as f64,
      4 => s * f64::from_bits(r.u64() >> 2 & !(1 << 63)),
      5 => s * r.below(5) as f64,
      _ => s * (r.u64() >> 11) as f64 * 2f64.powi(r.range(-1000, 900) as i32),
    }
  }
  fn between(r: &mut Rg, lo: Self, hi: Self) -> Self {
    let v = match r.below(7) {
      0 => lo,
      1 => hi,
      2 => lo / 2.0 + hi / 2.0,
      3 if lo < hi => gen::nudge(lo, true),
      4 if lo < hi => gen::nudge(hi, false),
      5 => lo + (hi - lo) * 2f64.powi(-(r.below(60) as i32)),
      _ => lo + (hi - lo) * ((r.u64() >> 11) as f64 / (1u64 << 53) as f64),
    };
    if v >= lo && v <= hi { v } else { lo }
  }
  fn fits(_: f64, _: f64) -> bool {
    false
  }
}
fn order<T: PartialOrd>(a: T, b: T) -> (T, T) {
  if b < a { (b, a) } else { (a, b) }
}
fn mono<T: Val>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for _ in 0..20 {
    let near = r.chance(1, 3);
    let mut ax = [T::draw(r), T::draw(r), T::draw(r), T::draw(r)];
    if near { ax[2] = ax[0]; if r.chance(1, 2) { ax[3] = ax[1] } }
    let (x0, x1) = order(ax[0], ax[2]);
    let (y0, y1) = order(ax[1], ax[3]);
    let zb = ZHashBox { min_x: &x0, max_x: &x1, min_y: &y0, max_y: &y1 };
    let k = T::zhash_key(zb);
    let h = |x: T, y: T| T::zhash_fn(k, &Point::new([x, y]));
    for _ in 0..6 {
      let (a, b) = (T::between(r, x0, x1), T::between(r, x0, x1));
      let (c, d) = (T::between(r, y0, y1), T::between(r, y0, y1));
      let (sx0, sx1) = order(a, b);
      let (sy0, sy1) = order(c, d);
      let (px, py) = (T::between(r, sx0, sx1), T::between(r, sy0, sy1));
      let (lo, mid, hi) = (h(sx0, sy0), h(px, py), h(sx1, sy1));
      ctx.eval();
      if lo < mid && mid < hi { ctx.count("strictly_between") }
      if lo == hi { ctx.count("one_cell") }
      ck!(lo <= mid && mid <= hi, "{}: box {:?}..{:?} x {:?}..{:?}, sub-box {:?}..{:?} x {:?}..{:?}: hash of ({:?}, {:?}) is {:#x}, corners {:#x} and {:#x}", T::N, x0, x1, y0, y1, sx0, sx1, sy0, sy1, px, py, mid, lo, hi);
      if T::fits(x0, x1) && T::fits(y0, y1) {
        ctx.count("told_apart");
        for (u, v, g) in [(sx0, sy0, lo), (sx1, sy1, hi), (sx0, py, h(sx0, py)), (px, sy1, h(px, sy1))] {
          ck!((g == mid) == (u == px && v == py), "{}: box {:?}..{:?} x {:?}..{:?}: hashes of ({:?}, {:?}) and ({:?}, {:?}) are {:#x} and {:#x}", T::N, x0, x1, y0, y1, u, v, px, py, g, mid);
        }
      }
      ctx.nontrivial(format!("{:?}{:?}{:?}{:?}", sx0, sy0, px, py));
    }
  }
  ctx.sample(|| T::N.to_string());
  Ok(())
}
fn fam_mono(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, mono, [i8, i64, u64, u32, f64])
}
/// One box of i8 (or a window of another type) exhaustively.
fn i8_all(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let (x0, x1) = order(i8::draw(r), (r.u64() >> 56) as i8);
  let (y0, y1) = order((r.u64() >> 56) as i8, i8::draw(r));
  let zb = ZHashBox { min_x: &x0, max_x: &x1, min_y: &y0, max_y: &y1 };
  let k = i8::zhash_key(zb);
  let h = |x: i8, y: i8| i8::zhash_fn(k, &Point::new([x, y]));
  // monotone in each coordinate implies monotone on boxes
  for x in x0..=x1 {
    for y in y0..=y1 {
      if x < x1 { ck!(h(x, y) <= h(x + 1, y), "i8 hash falls from ({}, {}) to ({}, {}) in box {:?}", x, y, x + 1, y, (x0, x1, y0, y1)) }
      if y < y1 { ck!(h(x, y) <= h(x, y + 1), "i8 hash falls from ({}, {}) to ({}, {}) in box {:?}", x, y, x, y + 1, (x0, x1, y0, y1)) }
      ctx.eval();
    }
  }
  ctx.count("i8_boxes");
  ctx.nontrivial((x0, x1, y0, y1));
  Ok(())
}
fn main() {
  engine::run_main(Property {
    id: "C18",
    rule: "a case is non-trivial and distinct by the hashed pair or sub-box",
    assumptions: &["f64 boxes whose width overflows to infinity are outside the property"],
    families: vec![
      Family { name: "bits", quick: 36000, thorough: 400000, f: bits },
      Family { name: "halves", quick: 64, thorough: 64, f: halves },
      Family { name: "mono", quick: 120000, thorough: 1500000, f: fam_mono },
      Family { name: "i8", quick: 400, thorough: 20000, f: i8_all },
    ],
    require: &["told_apart", "bits", "halves", "strictly_between", "one_cell", "i8_boxes", "type:f64", "type:u64", "type:u32", "type:i64", "type:i8"],
  })
}
