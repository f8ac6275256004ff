use rgeometry::data::Point;
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::sc::{Kind, Sc};
use rgmon::*;
use std::cmp::Ordering;

fn check<S: Sc>(ctx: &mut Ctx, p: &Point<S>, q: &Point<S>, r: &Point<S>) -> Res {
  let all = [p.clone(), q.clone(), r.clone()];
  with_ex!(exact(&all), e => {
    let want = cmp_dist(&e[0], &e[1], &e[2]);
    ctx.eval();
    ctx.count(match want { Ordering::Equal => "equal", Ordering::Less => "less", _ => "greater" });
    if want == Ordering::Equal && e[1] != e[2] { ctx.count("equal_but_different_points") }
    let got = p.cmp_distance_to(q, r);
    ck!(got == want, "cmp_distance_to from the first of {} is {:?}, exactly {:?}", show(&all), got, want);
    let got = S::cmp_dist(&p.array, &q.array, &r.array);
    ck!(got == want, "cmp_dist of {} is {:?}, exactly {:?}", show(&all), got, want);
    let got = p.cmp_distance_to(r, q);
    ck!(got == want.reverse(), "cmp_distance_to with the last two of {} swapped is {:?}, exactly {:?}", show(&all), got, want.reverse());
    Ok(())
  })
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let mut p = raw_points::<S>(&mut ctx.rng, 3);
  if ctx.rng.chance(1, 12) {
    p[2] = p[1].clone();
  }
  ctx.sample(|| show(&p));
  ctx.nontrivial(key(&p));
  for k in 0..3 {
    check(ctx, &p[k], &p[(k + 1) % 3], &p[(k + 2) % 3])?;
  }
  Ok(())
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
/// Points on a common circle around the first, then nudged.
fn ring<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r).max(2);
  let h = lim / 2;
  let c = [r.range(-h, h), r.range(-h, h)];
  // Pythagorean offsets or mirrored ones
  let (a, b) = if r.chance(1, 2) { (r.range(0, h), r.range(0, h)) } else {
    let k = (h / 65).max(1);
    let t = *r.pick(&[(63i64, 16i64), (33, 56), (60, 25), (52, 39), (0, 65), (65, 0)]);
    let t = (t.0 * k, t.1 * k);
    if t.0.max(t.1) > h { (h, 0) } else { t }
  };
  let mut mk = |r: &mut rng::Rg| {
    let (mut x, mut y) = (a, b);
    if h >= 65 && r.chance(1, 3) && (a as i128).pow(2) + (b as i128).pow(2) == (65 * (h / 65)) as i128 * (65 * (h / 65)) as i128 {
      let t = *r.pick(&[(63i64, 16i64), (33, 56), (60, 25), (52, 39), (0, 65), (65, 0)]);
      x = t.0 * (h / 65);
      y = t.1 * (h / 65);
    }
    if r.chance(1, 2) { std::mem::swap(&mut x, &mut y) }
    if r.chance(1, 2) { x = -x }
    if r.chance(1, 2) { y = -y }
    [c[0] + x, c[1] + y]
  };
  let q = mk(r);
  let mut s = mk(r);
  if r.chance(1, 2) {
    s[r.below(2)] += r.range(-1, 1);
  }
  let v = [c, q, s];
  if v.iter().any(|p| p[0].abs() > lim || p[1].abs() > lim) { return Ok(()) }
  let Some((p, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
  ctx.nontrivial(key(&p));
  ctx.count("ring");
  check(ctx, &p[0], &p[1], &p[2])
}
fn fam_ring(ctx: &mut Ctx) -> Res {
  all_types!(ctx, ring)
}
/// Any finite floats at all.
fn wild<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let mut c = || -> S {
    loop {
      let f = if S::KIND == Kind::F32 { f32::from_bits(r.u64() as u32) as f64 } else { f64::from_bits(r.u64()) };
      let f = if r.chance(1, 4) { *r.pick(&[0.0, 1.0, -1.0, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f32::MAX as f64, f32::MIN_POSITIVE as f64]) } else { f };
      if f.is_finite() {
        if let Some(s) = S::from_rat(&rgmon::sc::rat_f64(f)) { return s }
      }
    }
  };
  let p: Vec<Point<S>> = (0..3).map(|_| Point::new([c(), c()])).collect();
  ctx.nontrivial(key(&p));
  ctx.count("wild_floats");
  check(ctx, &p[0], &p[1], &p[2])
}
fn fam_wild(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, wild, [f32, f64, OF32, OF64, NN32, NN64])
}
/// Small integers times one power of two from anywhere in the range.
fn scales<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let Some(v) = scaled::<S>(r, 6) else { return Ok(()) };
  let p: Vec<Point<S>> = v.chunks(2).map(|c| Point::new([c[0].clone(), c[1].clone()])).collect();
  ctx.nontrivial(key(&p));
  ctx.count("scales");
  for k in 0..3 {
    check(ctx, &p[k], &p[(k + 1) % 3], &p[(k + 2) % 3])?;
  }
  Ok(())
}
fn fam_scales(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, scales, [f32, f64, OF32, OF64, NN32, NN64])
}
/// Every pair of corner values of the type around one centre.
fn corners<S: Sc>(ctx: &mut Ctx) -> Res {
  let vals: Vec<i64> = vec![S::MIN, S::MIN + 1, S::MIN / 2, -1, 0, 1, S::MAX / 2 + 1, S::MAX - 1, S::MAX];
  let r = &mut ctx.rng.fork();
  let g: Vec<S> = vals.iter().map(|v| S::from_i(*v).unwrap()).collect();
  let p = Point::new([r.pick(&g).clone(), r.pick(&g).clone()]);
  let q = Point::new([r.pick(&g).clone(), r.pick(&g).clone()]);
  ctx.nontrivial(format!("{:?}{:?}", p, q));
  ctx.count("corners");
  for x in &g {
    for y in &g {
      check(ctx, &p, &q, &Point::new([x.clone(), y.clone()]))?;
    }
  }
  Ok(())
}
fn fam_corners(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, corners, [i8, i16, i32, i64, isize])
}
fn main() {
  engine::run_main(Property {
    id: "C02",
    rule: "a case is non-trivial by its three points",
    assumptions: &[],
    families: vec![
      Family { name: "random", quick: 240000, thorough: 6000000, f: fam_random },
      Family { name: "ring", quick: 160000, thorough: 3000000, f: fam_ring },
      Family { name: "wild", quick: 40000, thorough: 600000, f: fam_wild },
      Family { name: "scales", quick: 80000, thorough: 1500000, f: fam_scales },
      Family { name: "corners", quick: 12000, thorough: 200000, f: fam_corners },
    ],
    require: &["equal", "less", "greater", "equal_but_different_points", "ring", "wild_floats", "scales", "corners"],
  })
}
