use num_traits::Signed;
use rgeometry::{Orientation, SoS};
use rgmon::*;

/// Orientation of (i, 2^i) for three distinct indices, exactly. Small indices
/// by arithmetic; for large gaps by scaling out the smallest power.
fn want(a: u32, b: u32, c: u32) -> SoS {
  let m = a.min(b).min(c);
  let (da, db, dc) = (a - m, b - m, c - m);
  let mx = da.max(db).max(dc);
  let ccw = if mx <= 2000 {
    // subtracting m from x and dividing y by 2^m keeps the sign
    let p = |d: u32| (BigInt::from(d), BigInt::from(1) << d as usize);
    let ((ax, ay), (bx, by), (cx, cy)) = (p(da), p(db), p(dc));
    let det = (&bx - &ax) * (&cy - &ay) - (&by - &ay) * (&cx - &ax);
    assert!(det != BigInt::from(0));
    det.is_positive()
  } else {
    // y = 2^x is strictly convex: increasing x turns left
    let inv = [(a, b), (a, c), (b, c)].iter().filter(|(x, y)| x > y).count();
    inv % 2 == 0
  };
  if ccw { SoS::CounterClockWise } else { SoS::ClockWise }
}
fn check(ctx: &mut Ctx, a: u32, b: u32, c: u32) -> Res {
  let w = want(a, b, c);
  ctx.eval();
  ctx.count(if w == SoS::ClockWise { "cw" } else { "ccw" });
  let rev = |s: SoS| match s { SoS::ClockWise => SoS::CounterClockWise, _ => SoS::ClockWise };
  ck!(SoS::new(a, b, c) == w, "SoS::new({a}, {b}, {c}) is {:?}", SoS::new(a, b, c));
  for (x, y, z, odd) in [(b, c, a, false), (c, a, b, false), (b, a, c, true), (a, c, b, true), (c, b, a, true)] {
    let e = if odd { rev(w) } else { w };
    ck!(SoS::new(x, y, z) == e, "SoS::new({x}, {y}, {z}) is {:?}", SoS::new(x, y, z));
  }
  use Orientation::*;
  ck!(CoLinear.break_ties(a, b, c) == w, "CoLinear.break_ties({a}, {b}, {c})");
  ck!(CounterClockWise.break_ties(a, b, c) == SoS::CounterClockWise, "CounterClockWise.break_ties({a}, {b}, {c})");
  ck!(ClockWise.break_ties(a, b, c) == SoS::ClockWise, "ClockWise.break_ties({a}, {b}, {c})");
  Ok(())
}
fn small(ctx: &mut Ctx) -> Res {
  // every ordered triple with first index = case
  let n = 40u32;
  let a = ctx.case as u32 % n;
  for b in 0..n {
    for c in 0..n {
      if a != b && b != c && a != c {
        check(ctx, a, b, c)?;
      }
    }
  }
  ctx.nontrivial(a);
  ctx.count("small");
  Ok(())
}
fn wide(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let base = r.u64() as u32;
  let mut c = || match r.below(6) {
    0 => r.below(4) as u32,
    1 => u32::MAX - r.below(4) as u32,
    2 => (1u32 << 31).wrapping_add(r.range(-2, 2) as u32),
    3 => base.wrapping_add(r.range(-3, 3) as u32),
    4 => 1u32 << r.below(32),
    _ => r.u64() as u32,
  };
  for _ in 0..32 {
    let (a, b, d) = (c(), c(), c());
    if a != b && b != d && a != d {
      ctx.stats.distinct.insert((a as u64) << 40 ^ (b as u64) << 20 ^ d as u64);
      ctx.stats.evals += 1;
      let w = want(a, b, d);
      ck!(SoS::new(a, b, d) == w, "SoS::new({a}, {b}, {d}) is not {:?}", w);
      ck!(Orientation::CoLinear.break_ties(a, b, d) == w, "CoLinear.break_ties({a}, {b}, {d}) is not {:?}", w);
      if (a.max(b).max(d) - a.min(b).min(d)) > 1 << 30 {
        *ctx.stats.counters.entry("far_apart".into()).or_insert(0) += 1;
      }
    }
  }
  let (a, b, d) = (c(), c(), c());
  if a != b && b != d && a != d { check(ctx, a, b, d)? }
  check(ctx, base, base ^ 1, base.wrapping_add(77777))
}
fn algebra(ctx: &mut Ctx) -> Res {
  use Orientation::*;
  let os = [CounterClockWise, ClockWise, CoLinear];
  let ss = [SoS::CounterClockWise, SoS::ClockWise];
  let flip = |o: Orientation| match o { CounterClockWise => ClockWise, ClockWise => CounterClockWise, CoLinear => CoLinear };
  for o in os {
    ctx.eval();
    ck!(o.reverse() == flip(o), "{:?}.reverse()", o);
    ck!(o.reverse().reverse() == o, "{:?} reversed twice", o);
    ck!(o.is_colinear() == matches!(o, CoLinear) && o.is_ccw() == matches!(o, CounterClockWise) && o.is_cw() == matches!(o, ClockWise), "is_* of {:?}", o);
    for p in os {
      let w = if o == CoLinear { p } else { o };
      ck!(o.then(p) == w, "{:?}.then({:?})", o, p);
      for q in os {
        ck!(o.then(p).then(q) == o.then(p.then(q)), "then is not associative on {:?} {:?} {:?}", o, p, q);
      }
      ck!(o.then(p).reverse() == o.reverse().then(p.reverse()), "reverse of then on {:?} {:?}", o, p);
    }
    for s in ss {
      let w = match o { CounterClockWise => SoS::CounterClockWise, ClockWise => SoS::ClockWise, CoLinear => s };
      ck!(o.sos(s) == w, "{:?}.sos({:?})", o, s);
      ck!(o.sos(s).orient() == o.then(s.orient()), "sos/then on {:?} {:?}", o, s);
    }
  }
  for s in ss {
    let w = match s { SoS::CounterClockWise => SoS::ClockWise, _ => SoS::CounterClockWise };
    ck!(s.reverse() == w && s.reverse().reverse() == s, "{:?}.reverse()", s);
    let w = match s { SoS::CounterClockWise => CounterClockWise, _ => ClockWise };
    ck!(s.orient() == w, "{:?}.orient()", s);
  }
  ctx.count("algebra");
  ctx.nontrivial(1u8);
  Ok(())
}
fn main() {
  engine::run_main(Property {
    id: "C04",
    rule: "triples of distinct indices",
    assumptions: &["equal indices are outside the documented domain"],
    families: vec![
      Family { name: "small", quick: 40, thorough: 40, f: small },
      Family { name: "wide", quick: 320000, thorough: 4000000, f: wide },
      Family { name: "algebra", quick: 1, thorough: 1, f: algebra },
    ],
    require: &["cw", "ccw", "small", "far_apart", "algebra"],
  })
}
