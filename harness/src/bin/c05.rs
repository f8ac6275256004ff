use rgeometry::data::*;
use rgeometry::{Intersects, Orientation};
use rgmon::common::*;
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::sc::Sc;
use rgmon::*;

/// Ray from o in direction d against the segment b1 b2.
fn ray<N: Nm>(o: &P<N>, d: &P<N>, b1: &P<N>, b2: &P<N>) -> Option<Orientation> {
  let (u1, u2) = (sub(b1, o), sub(b2, o));
  let (s1, s2) = (sgn(&vcross(d, &u1)), sgn(&vcross(d, &u2)));
  match (s1, s2) {
    (0, 0) => None,
    (0, s) => vdot(d, &u1).is_positive().then(|| ori(s)),
    (s, 0) => vdot(d, &u2).is_positive().then(|| ori(s)),
    (s, t) if s == t => None,
    _ => {
      // o + k d = b1 + l (b2 - b1): k = cross(u1, e) / cross(d, e)
      let e = sub(b2, b1);
      let (num, den) = (sgn(&vcross(&u1, &e)), sgn(&vcross(d, &e)));
      (num * den > 0).then_some(Orientation::CoLinear)
    }
  }
}
fn line<N: Nm>(o: &P<N>, d: &P<N>, b1: &P<N>, b2: &P<N>) -> bool {
  let side = |b: &P<N>| sgn(&vcross(d, &sub(b, o))) >= 0;
  side(b1) != side(b2)
}
fn check<S: Sc>(ctx: &mut Ctx, o: &Point<S>, t: &Point<S>, v: &Point<S>, b1: &Point<S>, b2: &Point<S>) -> Res {
  let all = [o.clone(), t.clone(), v.clone(), b1.clone(), b2.clone()];
  let vec: Vector<S, 2> = v.clone().into();
  let ends = |k: usize| {
    let w = |p, open| if open { EndPoint::Exclusive(p) } else { EndPoint::Inclusive(p) };
    (w(b1, k & 1 != 0), w(b2, k & 2 != 0))
  };
  with_ex!(exact(&all), e => {
    let d = sub(&e[1], &e[0]);
    for (dir, through) in [(d, true), (e[2].clone(), false)] {
      if sgn(&dir[0]) == 0 && sgn(&dir[1]) == 0 { continue }
      let want = ray(&e[0], &dir, &e[3], &e[4]);
      let lwant = line(&e[0], &dir, &e[3], &e[4]);
      ctx.eval();
      ctx.count(match want { None => "no_crossing", Some(Orientation::CoLinear) => "through", Some(Orientation::ClockWise) => "lean_right", _ => "lean_left" });
      ctx.count(if lwant { "line_crossing" } else { "line_no_crossing" });
      let (h, l) = if through { (HalfLineSoS::new_through(o, t), Line::new_through(o, t)) } else { (HalfLineSoS::new_directed(o, &vec), Line::new_directed(o, &vec)) };
      let ls: LineSoS<S> = l.into();
      let what = if through { "through" } else { "vector" };
      for k in 0..4 {
        let (x, y) = ends(k);
        for seg in [LineSegmentView::new(x, y), LineSegmentView::new(y, x)] {
          let got = (&h).intersect(seg).map(|IHalfLineLineSegmentSoS::Crossing(c)| c);
          ck!(got == want, "origin, through, vector, b1, b2 = {}: ray ({what}) meets segment as {:?}, exactly {:?}", show(&all), got, want);
          let got = (&ls).intersect(seg).is_some();
          ck!(got == lwant, "origin, through, vector, b1, b2 = {}: line ({what}) crosses segment: {}, exactly {}", show(&all), got, lwant);
        }
      }
      for (s, t) in [(b1, b2), (b2, b1)] {
        let edge = DirectedEdge { src: s, dst: t };
        let got = (&h).intersect(edge).map(|IHalfLineLineSegmentSoS::Crossing(c)| c);
        ck!(got == want, "origin, through, vector, b1, b2 = {}: ray ({what}) meets directed edge as {:?}, exactly {:?}", show(&all), got, want);
        let got = (&ls).intersect(edge).is_some();
        ck!(got == lwant, "origin, through, vector, b1, b2 = {}: line ({what}) crosses directed edge: {}, exactly {}", show(&all), got, lwant);
      }
    }
    Ok(())
  })
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let mut p = raw_points::<S>(r, 5);
  // put an endpoint on the ray's line when representable
  if r.chance(1, 2) {
    let (o, t) = (rgmon::sc::rpt(&p[0]), rgmon::sc::rpt(&p[1]));
    let d = rsub(&t, &o);
    let k = BigRational::new(BigInt::from(r.range(-3, 3)), BigInt::from(r.range(1, 2)));
    if let (Some(x), Some(y)) = (S::from_rat(&(&o[0] + &d[0] * &k)), S::from_rat(&(&o[1] + &d[1] * &k))) {
      p[3 + r.below(2)] = Point::new([x, y]);
      ctx.count("aligned");
    }
  }
  ctx.sample(|| show(&p));
  ctx.nontrivial(key(&p));
  check(ctx, &p[0], &p[1], &p[2], &p[3], &p[4])
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
fn lattice<S: Sc>(ctx: &mut Ctx) -> Res {
  // one segment on the grid against every direction of a small lattice
  let i = ctx.case as i64;
  let at = |k: i64| [k % 5 - 2, k / 5 % 5 - 2];
  let (b1, b2) = (at(i % 25), at(i / 25 % 25));
  let mk = |v: V| Point::new([S::from_i(v[0]).unwrap(), S::from_i(v[1]).unwrap()]);
  for k in 0..25 {
    let d = at(k);
    check(ctx, &mk([0, 0]), &mk(d), &mk([d[0] * 2, d[1] * 2]), &mk(b1), &mk(b2))?;
  }
  ctx.count("lattice");
  ctx.nontrivial((S::NAME, b1, b2));
  Ok(())
}
fn fam_lattice(ctx: &mut Ctx) -> Res {
  all_types!(ctx, lattice)
}
fn main() {
  engine::run_main(Property {
    id: "C05",
    rule: "a case is non-trivial by its ray and segment",
    assumptions: &["zero directions are not exercised"],
    families: vec![
      Family { name: "random", quick: 120000, thorough: 3000000, f: fam_random },
      Family { name: "lattice", quick: 10000, thorough: 100000, f: fam_lattice },
    ],
    require: &["no_crossing", "through", "lean_left", "lean_right", "line_crossing", "line_no_crossing", "aligned", "lattice"],
  })
}
