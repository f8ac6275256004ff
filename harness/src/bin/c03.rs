use rgeometry::data::{Point, Vector};
use rgeometry::Orientation;
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::sc::Sc;
use rgmon::*;
use std::cmp::Ordering;

/// All entry points for centre c, reference z and the points p, q.
fn check<S: Sc>(ctx: &mut Ctx, c: &Point<S>, z: &Point<S>, p: &Point<S>, q: &Point<S>) -> Res {
  let all = [c.clone(), z.clone(), p.clone(), q.clone()];
  let vz: Vector<S, 2> = z.clone().into();
  with_ex!(exact(&all), e => {
    let (u, v) = (sub(&e[2], &e[0]), sub(&e[3], &e[0]));
    let zero = |w: &P<_>| sgn(&w[0]) == 0 && sgn(&w[1]) == 0;
    if !zero(&e[1]) {
      let want = cmp_angle(&e[1], &u, &v);
      ctx.eval();
      ctx.count(match want { Ordering::Equal => "equal", Ordering::Less => "less", _ => "greater" });
      ctx.count(match sector(&e[1], &u) { 0 => "sector_zero", 1 => "sector_left", 2 => "sector_opposite", _ => "sector_right" });
      let got = c.ccw_cmp_around_with(&vz, p, q);
      ck!(got == want, "centre, reference, p, q = {}: ccw_cmp_around_with is {:?}, exactly {:?}", show(&all), got, want);
      let got = Orientation::ccw_cmp_around_with(&vz, &c.array, &p.array, &q.array);
      ck!(got == want, "centre, reference, p, q = {}: Orientation::ccw_cmp_around_with is {:?}, exactly {:?}", show(&all), got, want);
      let vc: Vector<S, 2> = c.clone().into();
      let got = vc.ccw_cmp_around_with(&vz, &p.clone().into(), &q.clone().into());
      ck!(got == want, "centre, reference, p, q = {}: Vector::ccw_cmp_around_with is {:?}, exactly {:?}", show(&all), got, want);
      let got = c.ccw_cmp_around_with(&vz, q, p);
      ck!(got == want.reverse(), "centre, reference, q, p = {}: swapped comparison is {:?}, exactly {:?}", show(&all), got, want.reverse());
    }
    let one = [Nm::of(1), Nm::of(0)];
    let want = cmp_angle(&one, &u, &v);
    ctx.eval();
    let got = c.ccw_cmp_around(p, q);
    ck!(got == want, "centre, _, p, q = {}: ccw_cmp_around is {:?}, exactly {:?}", show(&all), got, want);
    let vc: Vector<S, 2> = c.clone().into();
    let got = vc.ccw_cmp_around(&p.clone().into(), &q.clone().into());
    ck!(got == want, "centre, _, p, q = {}: Vector::ccw_cmp_around is {:?}, exactly {:?}", show(&all), got, want);
    Ok(())
  })
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let mut p = raw_points::<S>(r, 4);
  if r.chance(1, 4) {
    p[0] = Point::new([S::from_constant(0), S::from_constant(0)]);
  }
  // make one of the points lie on the reference line, when representable
  if r.chance(1, 2) {
    let (c, t) = (rgmon::sc::rpt(&p[0]), rgmon::sc::rpt(&p[2]));
    let d = rsub(&t, &c);
    let k = BigRational::new(BigInt::from(r.range(-2, 2)), BigInt::from(r.range(1, 2)));
    let i = if r.chance(1, 2) { 1 } else { 3 };
    let w = [&d[0] * &k, &d[1] * &k];
    let w = if i == 1 { w } else { [&c[0] + &w[0], &c[1] + &w[1]] };
    if let (Some(x), Some(y)) = (S::from_rat(&w[0]), S::from_rat(&w[1])) {
      p[i] = Point::new([x, y]);
      ctx.count("aligned");
    }
  }
  ctx.sample(|| show(&p));
  ctx.nontrivial(key(&p));
  let (c, z) = (&p[0], &p[1]);
  check(ctx, c, z, &p[2], &p[3])?;
  check(ctx, c, z, &p[2], c)?;
  check(ctx, c, z, &p[2], &p[2])
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
/// The whole lattice [-2,2]^2 for one reference and one point.
fn lattice<S: Sc>(ctx: &mut Ctx) -> Res {
  let i = ctx.case as i64;
  let at = |k: i64| [k % 5 - 2, k / 5 % 5 - 2];
  let (z, p) = (at(i % 25), at(i / 25 % 25));
  let c = if ctx.rng.chance(1, 2) { [0, 0] } else { [ctx.rng.range(-60, 60), ctx.rng.range(-60, 60)] };
  let mk = |v: V| Point::new([S::from_i(v[0]).unwrap(), S::from_i(v[1]).unwrap()]);
  for k in 0..25 {
    let q = at(k);
    check(ctx, &mk(c), &mk(z), &mk([c[0] + p[0], c[1] + p[1]]), &mk([c[0] + q[0], c[1] + q[1]]))?;
  }
  ctx.count("lattice");
  ctx.nontrivial((S::NAME, z, p));
  Ok(())
}
fn fam_lattice(ctx: &mut Ctx) -> Res {
  all_types!(ctx, lattice)
}
fn sort<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = match r.below(8) { 0 => r.below(3), 1 => 20 + r.below(60), _ => 2 + r.below(18) };
  let p = raw_points::<S>(r, n);
  let mut v: Vec<Vector<S, 2>> = p.iter().map(|p| p.clone().into()).collect();
  Vector::sort_around(&mut v);
  let after: Vec<Point<S>> = v.iter().map(|v| v.clone().into()).collect();
  ctx.eval();
  ctx.count("sorts");
  ctx.nontrivial(key(&p));
  let (mut a, mut b): (Vec<_>, Vec<_>) = (p.iter().map(rgmon::sc::rpt).collect(), after.iter().map(rgmon::sc::rpt).collect());
  a.sort();
  b.sort();
  ck!(a == b, "sort_around turned {} into {}", show(&p), show(&after));
  with_ex!(exact(&after), e => {
    let z = [Nm::of(1), Nm::of(0)];
    for w in e.windows(2) {
      ck!(cmp_angle(&z, &w[0], &w[1]) != Ordering::Greater, "sort_around of {} gave {}", show(&p), show(&after));
    }
    Ok(())
  })
}
fn fam_sort(ctx: &mut Ctx) -> Res {
  all_types!(ctx, sort)
}
/// Long lists, longer than sixteen bits count among them.
fn long<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = if r.chance(1, 4) { ctx.count("huge"); huge_n(r) } else { big_n(r, 40, 8000) };
  let lim = *r.pick(&[2i64, 20, 1 << 10, 1 << 22]);
  let mut p: Vec<V> = (0..n).map(|_| [r.range(-lim, lim), r.range(-lim, lim)]).collect();
  if r.chance(1, 4) { p.sort() }
  let Some(pts) = Emb::id().all::<S>(&p) else { return Ok(()) };
  ctx.count("long");
  ctx.nontrivial(&p);
  let mut v: Vec<Vector<S, 2>> = pts.iter().map(|p| p.as_vec().clone()).collect();
  Vector::sort_around(&mut v);
  ctx.eval();
  let back = |v: &Vector<S, 2>| -> [i128; 2] { [0, 1].map(|i| v.0[i].rat().to_integer().try_into().unwrap()) };
  let after: Vec<[i128; 2]> = v.iter().map(back).collect();
  let (mut a, mut b) = (x128(&p), after.clone());
  a.sort();
  b.sort();
  ck!(a == b, "sort_around of {} vectors loses or changes some", n);
  for (i, w) in after.windows(2).enumerate() {
    ck!(cmp_angle(&[1i128, 0], &w[0], &w[1]) != Ordering::Greater, "sort_around of {} vectors has {:?} before {:?} at {}", n, w[0], w[1], i);
  }
  Ok(())
}
fn fam_long(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, long, [i32, i64, f64])
}
fn main() {
  engine::run_main(Property {
    id: "C03",
    rule: "a case is non-trivial by its centre, reference and points",
    assumptions: &["zero reference vectors have no direction and are not exercised"],
    families: vec![
      Family { name: "random", quick: 100000, thorough: 5000000, f: fam_random },
      Family { name: "lattice", quick: 12500, thorough: 100000, f: fam_lattice },
      Family { name: "sort", quick: 30000, thorough: 1000000, f: fam_sort },
      Family { name: "long", quick: 40, thorough: 2000, f: fam_long },
    ],
    require: &["equal", "less", "greater", "sector_zero", "sector_left", "sector_opposite", "sector_right", "aligned", "lattice", "sorts", "long", "huge"],
  })
}
