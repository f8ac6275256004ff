use rgeometry::data::{Direction, Point, TriangleView, Vector};
use rgeometry::Orientation;
use rgmon::common::*;
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::sc::{Kind, Sc};
use rgmon::*;

/// Every entry point on p, q, r and vector v.
fn check<S: Sc>(ctx: &mut Ctx, p: &Point<S>, q: &Point<S>, r: &Point<S>, v: &Vector<S, 2>, turn_ok: bool) -> Res {
  let all = [p.clone(), q.clone(), r.clone(), Point::new(v.0.clone())];
  with_ex!(exact(&all), e => {
    let (ep, eq, er, ev) = (&e[0], &e[1], &e[2], &e[3]);
    let say = || show(&all);
    if turn_ok {
      let want = orient(ep, eq, er);
      ctx.eval();
      if want == 0 { ctx.count("colinear") } else { ctx.count("turns") }
      let o = ori(want);
      ck!(Orientation::new(&p.array, &q.array, &r.array) == o, "Orientation::new of {} is {:?}, exactly {:?}", say(), Orientation::new(&p.array, &q.array, &r.array), o);
      ck!(Point::orient(p, q, r) == o, "Point::orient of {} is not {:?}", say(), o);
      ck!(Point::orient_along_direction(p, Direction::Through(q), r) == o, "orient_along_direction(Through) of {} is not {:?}", say(), o);
      ck!(S::cmp_slope(&p.array, &q.array, &r.array) == ord(want), "cmp_slope of {} is not {:?}", say(), o);
      ck!(TriangleView::new_unchecked([p, q, r]).orientation() == o, "TriangleView::orientation of {} is not {:?}", say(), o);
    }
    // along v: the turn from v to q-p
    let d = sub(eq, ep);
    let want = sgn(&vcross(ev, &d));
    let o = ori(want);
    ctx.eval();
    ctx.count(if want == 0 { "vector_colinear" } else { "vector_turns" });
    let got = Orientation::along_vector(&p.array, v, &q.array);
    ck!(got == o, "along_vector p, v, q of {} is {:?}, exactly {:?}", say(), got, o);
    ck!(Point::orient_along_vector(p, v, q) == o, "Point::orient_along_vector of {} is not {:?}", say(), o);
    ck!(Point::orient_along_direction(p, Direction::Vector(v), q) == o, "orient_along_direction(Vector) of {} is not {:?}", say(), o);
    ck!(S::cmp_vector_slope(&v.0, &p.array, &q.array) == ord(want), "cmp_vector_slope of {} is not {:?}", say(), o);
    // along the perpendicular of v: sign of v . (q-p)
    let want = sgn(&vdot(ev, &d));
    let o = ori(want);
    ctx.eval();
    ctx.count(if want == 0 { "perp_colinear" } else { "perp_turns" });
    // turn from perp(v) towards q - p
    let want = sgn(&vcross(&perp(ev), &d));
    ck!(ori(want) == o.reverse(), "oracle identity");
    let o = ori(want);
    let got = Orientation::along_perp_vector(&p.array, v, &q.array);
    ck!(got == o, "along_perp_vector p, v, q of {} is {:?}, exactly {:?}", say(), got, o);
    ck!(Point::orient_along_perp_vector(p, v, q) == o, "Point::orient_along_perp_vector of {} is not {:?}", say(), o);
    ck!(S::cmp_perp_vector_slope(&v.0, &p.array, &q.array) == ord(want), "cmp_perp_vector_slope of {} is not {:?}", say(), o);
    // comparing along v: exactly the order of the dot products
    let want = vdot(ev, ep).cmp(&vdot(ev, eq));
    let got = v.cmp_along(p, q);
    ck!(got == want, "cmp_along v of p and q in {} is {:?}, exactly {:?}", say(), got, want);
    if want != std::cmp::Ordering::Equal { ctx.count("along_unequal") } else { ctx.count("along_equal") }
    Ok(())
  })
}

fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let mut p = raw_points::<S>(r, 4);
  if r.chance(1, 8) {
    // a repeated point
    let k = r.below(3);
    p[k] = p[(k + 1) % 3].clone();
  }
  if r.chance(1, 3) {
    p[3] = Point::new([raw_value(r), raw_value(r)]);
  }
  // vectors parallel or perpendicular to the first two points where that is representable
  if r.chance(1, 3) {
    let k = r.below(4);
    let (a, b) = (rgmon::sc::rpt(&p[0]), rgmon::sc::rpt(&p[1]));
    let d = rsub(&b, &a);
    let d = match k { 0 => d, 1 => [-&d[0], -&d[1]], 2 => [-&d[1], d[0].clone()], _ => [d[1].clone(), -&d[0]] };
    if let (Some(x), Some(y)) = (S::from_rat(&d[0]), S::from_rat(&d[1])) {
      p[3] = Point::new([x, y]);
      ctx.count("aligned_vectors");
    }
  }
  ctx.sample(|| show(&p));
  ctx.nontrivial(key(&p));
  let v: Vector<S, 2> = p[3].clone().into();
  check(ctx, &p[0], &p[1], &p[2], &v, true)
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}

/// Coordinates drawn from the corner values of the type, swept systematically.
fn corners<S: Sc>(ctx: &mut Ctx) -> Res {
  let vals: Vec<i64> = if S::KIND == Kind::Fixed {
    vec![S::MIN, S::MIN + 1, S::MIN / 2, -1, 0, 1, S::MAX / 2 + 1, S::MAX - 1, S::MAX]
  } else {
    vec![-2, -1, 0, 1, 2]
  };
  let r = &mut ctx.rng.fork();
  let g: Vec<S> = vals.iter().map(|v| S::from_i(*v).unwrap()).collect();
  let (p, v) = (Point::new([r.pick(&g).clone(), r.pick(&g).clone()]), Vector([r.pick(&g).clone(), r.pick(&g).clone()]));
  let q = Point::new([r.pick(&g).clone(), r.pick(&g).clone()]);
  ctx.nontrivial(format!("{:?}{:?}{:?}", p, q, v));
  for x in &g {
    for y in &g {
      let s = Point::new([x.clone(), y.clone()]);
      check(ctx, &p, &q, &s, &v, true)?;
    }
  }
  Ok(())
}
fn fam_corners(ctx: &mut Ctx) -> Res {
  all_types!(ctx, corners)
}

/// Vectors anywhere in the range of the float type, including subnormals.
fn wild<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let mut c = || -> S {
    loop {
      let f = if S::KIND == Kind::F32 { f32::from_bits(r.u64() as u32) as f64 } else { f64::from_bits(r.u64()) };
      let f = if r.chance(1, 6) { *r.pick(&[0.0, 1.0, -1.0, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN]) } else { f };
      if f.is_finite() {
        if let Some(s) = S::from_rat(&rgmon::sc::rat_f64(f)) {
          return s;
        }
      }
    }
  };
  let p = [Point::new([c(), c()]), Point::new([c(), c()])];
  let v = Vector([c(), c()]);
  ctx.nontrivial(key(&p));
  ctx.count("wild_floats");
  // f32 orientation is done in doubles: differences and products cannot overflow
  let turn_ok = false;
  check(ctx, &p[0], &p[1], &p[0].clone(), &v, turn_ok)
}
fn fam_wild(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, wild, [f32, f64, OF32, OF64, NN32, NN64])
}

/// Small integers times one power of two from anywhere in the range.
fn scales<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let Some(mut c) = scaled::<S>(r, 4) else { return Ok(()) };
  match r.below(3) {
    0 => c.extend(scaled::<S>(r, 2).unwrap_or(vec![])),
    _ => {
      let x: Vec<S> = (0..2).map(|_| r.pick(&c).clone()).collect();
      c.extend(x);
    }
  }
  if c.len() < 6 { return Ok(()) }
  let p: Vec<Point<S>> = c.chunks(2).map(|c| Point::new([c[0].clone(), c[1].clone()])).collect();
  let v = p[2].as_vec().clone();
  ctx.nontrivial(key(&p));
  ctx.count("scales");
  check(ctx, &p[0], &p[1], &p[0].clone(), &v, false)
}
fn fam_scales(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, scales, [f32, f64, OF32, OF64, NN32, NN64])
}

/// all_colinear over lists.
fn lists<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = r.below(8);
  let p = raw_points::<S>(r, n);
  let want = with_ex!(exact(&p), q => all_colinear(q));
  ctx.eval();
  ctx.nontrivial(key(&p));
  ctx.count(if want { "lists_on_a_line" } else { "lists_off_a_line" });
  ck!(Point::all_colinear(&p) == want, "all_colinear of {} is {}", show(&p), !want);
  Ok(())
}
fn fam_lists(ctx: &mut Ctx) -> Res {
  all_types!(ctx, lists)
}

fn main() {
  engine::run_main(Property {
    id: "C01",
    rule: "a case counts as non-trivial by its points and vector",
    assumptions: &["f64 turn predicates are exercised for magnitudes between 2^-240 and 2^240 (and zero), outside which products may under- or overflow"],
    families: vec![
      Family { name: "random", quick: 240000, thorough: 8000000, f: fam_random },
      Family { name: "corners", quick: 12000, thorough: 300000, f: fam_corners },
      Family { name: "wild", quick: 30000, thorough: 600000, f: fam_wild },
      Family { name: "scales", quick: 60000, thorough: 1500000, f: fam_scales },
      Family { name: "lists", quick: 20000, thorough: 600000, f: fam_lists },
    ],
    require: &["colinear", "turns", "vector_colinear", "vector_turns", "perp_colinear", "perp_turns", "along_equal", "along_unequal", "aligned_vectors", "wild_floats", "scales", "lists_on_a_line", "lists_off_a_line"],
  })
}
