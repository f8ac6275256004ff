use rgeometry::algorithms::polygonization::new_monotone_polygon;
use rgeometry::data::{Point, Polygon, Vector};
use rgeometry::Error;
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::hulls::lattice_seq;
use rgmon::sc::Sc;
use rgmon::*;

/// The projections rise once and fall once around the boundary.
fn unimodal<N: Nm>(b: &[P<N>], d: &P<N>) -> bool {
  let n = b.len();
  let s: Vec<i8> = (0..n).map(|i| sgn(&vdot(d, &sub(&b[(i + 1) % n], &b[i])))).filter(|s| *s != 0).collect();
  let m = s.len();
  (0..m).filter(|&i| s[i] != s[(i + 1) % m]).count() <= 2
}
fn generate<S: Sc>(ctx: &mut Ctx, pts: &[Point<S>], d: &Point<S>) -> Res {
  let got = new_monotone_polygon(pts.to_vec(), d.as_vec());
  ctx.eval();
  let n = pts.len();
  let mut all = pts.to_vec();
  all.push(d.clone());
  if let Ok(p) = &got { all.extend(boundary(p)) }
  with_ex!(exact(&all), e => {
    let (q, d1, b) = (&e[..n], &e[n], &e[n + 1..]);
    let mut u = q.to_vec();
    u.sort();
    u.dedup();
    let flat = all_colinear(&u);
    let mut pr: Vec<_> = u.iter().map(|p| vdot(d1, p)).collect();
    pr.sort();
    let ties = pr.windows(2).any(|w| w[0] == w[1]);
    let what = || format!("new_monotone_polygon({}, {})", show(pts), show(&[d.clone()]));
    match &got {
      Ok(p) => {
        ck!(u.len() >= 3 && !flat, "{} returned {}", what(), show(&boundary(p)));
        let mut x = b.to_vec();
        x.sort();
        ck!(x == u, "{} has vertices {}", what(), show(&boundary(p)));
        ck!(is_simple(b), "{} is not simple: {}", what(), show(&boundary(p)));
        ck!(sgn(&area2(b)) > 0, "{} is clockwise: {}", what(), show(&boundary(p)));
        ck!(unimodal(b, d1), "{} is not monotone: {}", what(), show(&boundary(p)));
        ck!(p.is_monotone(d.as_vec()), "{} = {} is not recognised as monotone", what(), show(&boundary(p)));
        ctx.count(if ties { "generated_with_ties" } else { "generated" });
        if u.len() < n { ctx.count("duplicates") }
      }
      Err(er) => {
        if u.len() < 3 {
          ck!(*er == Error::InsufficientVertices, "{} with {} distinct points reports {:?}", what(), u.len(), er);
          ctx.count("too_few");
        } else if flat {
          ctx.count("all_colinear");
        } else {
          return Err(format!("{} failed with {:?}", what(), er));
        }
      }
    }
    Ok(())
  })
}
fn direction<S: Sc>(r: &mut rgmon::rng::Rg, pts: &[Point<S>], lim: i64) -> Option<Point<S>> {
  for _ in 0..10 {
    let v: V = match r.below(6) {
      0 => [r.range(-1, 1), r.range(-1, 1)],
      1 => [r.range(-3, 3), r.range(-3, 3)],
      2 => [r.range(-lim, lim), r.range(-lim, lim)],
      3 => [r.range(-20, 20), 1],
      _ => [0, 0],
    };
    if v != [0, 0] {
      return Emb::id().put::<S>(&v);
    }
    if pts.len() > 1 && r.chance(1, 2) {
      // a coordinate vector
      let p = r.pick(pts).clone();
      if p.array.iter().any(|c| *c != S::from_constant(0)) { return Some(p) }
    } else if let Some(v) = raw_points::<S>(r, 1).pop() {
      if v.array.iter().any(|c| *c != S::from_constant(0)) { return Some(v) }
    }
  }
  None
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let n = match r.below(12) { 0 => r.below(4), 1 => 15 + r.below(40), _ => 3 + r.below(12) };
  let v = point_set(r, n, lim);
  let Some((pts, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
  let Some(d) = direction(r, &pts, lim) else { return Ok(()) };
  ctx.sample(|| show(&pts));
  ctx.nontrivial((key(&pts), key(&[d.clone()])));
  generate(ctx, &pts, &d)
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
fn raw<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = r.below(8);
  let pts = raw_points::<S>(r, n);
  let Some(d) = direction(r, &pts, 100) else { return Ok(()) };
  ctx.nontrivial((key(&pts), key(&[d.clone()])));
  ctx.count("raw");
  generate(ctx, &pts, &d)
}
fn fam_raw(ctx: &mut Ctx) -> Res {
  all_types!(ctx, raw)
}
/// Sequences over the 3x3 lattice with all small directions.
fn lattice(ctx: &mut Ctx) -> Res {
  for i in 0..81 {
    let v = lattice_seq(ctx.case * 81 + i, 7);
    let pts = Emb::id().all::<i64>(&v).unwrap();
    for dx in -2..=2 { for dy in -2..=2 {
      if (dx, dy) != (0, 0) { generate(ctx, &pts, &Point::new([dx, dy]))?; }
    } }
  }
  ctx.count("lattice");
  ctx.nontrivial(ctx.case);
  Ok(())
}
fn recognise<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let p: Polygon<S> = any_poly(r, 20);
  judge_monotone(ctx, r, &p)
}
fn judge_monotone<S: Sc>(ctx: &mut Ctx, r: &mut rgmon::rng::Rg, p: &Polygon<S>) -> Res {
  let b = boundary(p);
  let n = b.len();
  ctx.nontrivial(key(&b));
  for _ in 0..6 {
    let Some(mut d) = direction(r, &b, 127) else { return Ok(()) };
    // perpendicular to an edge, when that is representable
    if r.chance(1, 3) {
      let k = r.below(n);
      if let Some(v) = with_ex!(exact(&b), e => {
        let w = sub(&e[(k + 1) % n], &e[k]);
        let (x, y) = (w[0].big(), w[1].big());
        match (S::from_big(&-y), S::from_big(&x)) { (Some(a), Some(b)) => Some(Point::new([a, b])), _ => None }
      }) { d = v; ctx.count("edge_perpendicular") }
    }
    let mut all = b.clone();
    all.push(d.clone());
    with_ex!(exact(&all), e => {
      let want = unimodal(&e[..n], &e[n]);
      ctx.eval();
      ctx.count(if want { "monotone" } else { "not_monotone" });
      let v: &Vector<S, 2> = d.as_vec();
      let got = p.is_monotone(v);
      ck!(got == want, "is_monotone of {} along {} is {}, exactly {}", show(&b), show(&[d.clone()]), got, want);
    });
  }
  Ok(())
}
fn fam_recognise(ctx: &mut Ctx) -> Res {
  all_types!(ctx, recognise)
}
fn big<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 60, if ctx.tier == Tier::Quick { 800 } else { 2000 });
  let mut v = big_points(r, n);
  if r.chance(1, 3) {
    // many copies
    let m = v.len();
    for _ in 0..r.below(6000) { let k = r.below(m); v.push(v[k]) }
    if r.chance(1, 2) { r.shuffle(&mut v) }
    ctx.max("points with copies", v.len() as f64);
  }
  let Some((pts, _)) = place_big::<S>(r, &v, &[]) else { return Ok(()) };
  let Some(d) = direction(r, &pts, 127) else { return Ok(()) };
  ctx.nontrivial((key(&pts), key(&[d.clone()])));
  ctx.count("big");
  generate(ctx, &pts, &d)?;
  // recognition; often with one stretch turned around
  let n = big_n(r, 60, 3000);
  let mut v = big_simple(r, n);
  if r.chance(1, 3) { v.sort(); let k = v.len() / 2; v[k..].reverse() }
  if r.chance(1, 3) { let (i, j) = (r.below(v.len()), r.below(v.len())); v.swap(i, j) }
  let Some((pts, _)) = place_big::<S>(r, &v, &[]) else { return Ok(()) };
  let p = rgmon::past::seasoned(r, pts);
  judge_monotone(ctx, r, &p)
}
fn fam_big(ctx: &mut Ctx) -> Res {
  fast_types!(ctx, big)
}
/// Recognition with more vertices than sixteen bits count.
fn huge<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = huge_n(r);
  let mut v = huge_simple(r, n);
  if r.chance(1, 3) { let (i, j) = (r.below(v.len()), v.len() - 1 - r.below(3)); v.swap(i, j) }
  let Some(pts) = Emb::id().all::<S>(&v) else { return Ok(()) };
  ctx.count("huge");
  let p = build_huge(r, &pts);
  let e = x128(&v);
  for _ in 0..4 {
    let d = match r.below(3) { 0 => [1, 0], 1 => [0, -1], _ => [r.range(-3, 3), r.range(1, 3)] };
    let want = unimodal(&e, &[d[0] as i128, d[1] as i128]);
    ctx.eval();
    ctx.count(if want { "monotone" } else { "not_monotone" });
    let got = p.is_monotone(&Vector([S::from_i(d[0]).unwrap(), S::from_i(d[1]).unwrap()]));
    ck!(got == want, "is_monotone of {} vertices like {} along {:?} is {}, exactly {}", e.len(), show(&pts[..3]), d, got, want);
  }
  ctx.nontrivial(v);
  Ok(())
}
fn fam_huge(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, huge, [i32, i64, isize])
}
fn main() {
  engine::run_main(Property {
    id: "C22",
    rule: "a case is non-trivial and distinct by its points and direction",
    assumptions: &["float coordinates stay where intermediate products neither overflow nor underflow", "a stretch may contain edges perpendicular to the direction"],
    families: vec![
      Family { name: "random", quick: 25000, thorough: 1800000, f: fam_random },
      Family { name: "raw", quick: 15000, thorough: 700000, f: fam_raw },
      Family { name: "lattice", quick: 180, thorough: 20000, f: lattice },
      Family { name: "recognise", quick: 20000, thorough: 1200000, f: fam_recognise },
      Family { name: "big", quick: 150, thorough: 6000, f: fam_big },
      Family { name: "huge", quick: 8, thorough: 300, f: fam_huge },
    ],
    require: &["generated", "generated_with_ties", "duplicates", "too_few", "all_colinear", "raw", "lattice", "big", "huge", "monotone", "not_monotone", "edge_perpendicular"],
  })
}
