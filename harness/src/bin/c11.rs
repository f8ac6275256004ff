use rgeometry::data::{Point, PointLocation, Polygon, PolygonConvex};
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::sc::Sc;
use rgmon::*;

fn pl(l: Loc) -> PointLocation {
  match l { Loc::In => PointLocation::Inside, Loc::On => PointLocation::OnBoundary, Loc::Out => PointLocation::Outside }
}
fn check<S: Sc>(ctx: &mut Ctx, p: &PolygonConvex<S>, qs: &[Point<S>]) -> Res {
  let mut all = boundary(p.polygon());
  let n = all.len();
  all.extend(qs.iter().cloned());
  with_ex!(exact(&all), e => {
    let (b, q) = e.split_at(n);
    for (i, x) in q.iter().enumerate() {
      let w = locate(b, x);
      ctx.evals(2);
      ctx.count(match w { Loc::In => "inside", Loc::On => "boundary", Loc::Out => "outside" });
      if w == Loc::In && (2..n - 1).any(|k| orient(&b[0], &b[k], x) == 0) { ctx.count("inside_on_fan_diagonal") }
      let got = p.locate(&qs[i]);
      ck!(got == pl(w), "convex locate of {} in {} is {:?}, exactly {:?}", show(&qs[i..=i]), show(&all[..n]), got, w);
      let got = p.polygon().locate(&qs[i]);
      ck!(got == pl(w), "locate of {} in {} is {:?}, exactly {:?}", show(&qs[i..=i]), show(&all[..n]), got, w);
    }
    Ok(())
  })
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let n = if r.chance(1, 8) { 20 + r.below(80) } else { 3 + r.below(12) };
  let v = convex_poly(r, n, lim);
  let mut q: Vec<V> = (0..14).map(|_| query(r, &v, lim)).collect();
  // on fan diagonals
  for _ in 0..6 {
    let b = *r.pick(&v);
    let (dx, dy) = (b[0] as i128 - v[0][0] as i128, b[1] as i128 - v[0][1] as i128);
    let g = num_integer::gcd(dx, dy).max(1);
    let k = r.range(0, g.min(1 << 40) as i64) as i128;
    q.push([(v[0][0] as i128 + dx / g * k) as i64, (v[0][1] as i128 + dy / g * k) as i64]);
  }
  let Some((pts, qs)) = place::<S>(r, &v, &q, lim) else { return Ok(()) };
  ctx.sample(|| show(&pts));
  ctx.nontrivial(key(&pts));
  ctx.max("vertices", pts.len() as f64);
  let (p, _) = build(r, &pts);
  check(ctx, &PolygonConvex::new_unchecked(p), &qs)
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
/// Small convex polygons against every lattice point around them, in all rotations.
fn lattice<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let w = r.range(1, 6);
  let set: Vec<V> = (0..3 + r.below(12)).map(|_| [r.range(0, w), r.range(0, w)]).collect();
  let h = hull(&x128(&set));
  if h.len() < 3 { return Ok(()) }
  let v: Vec<V> = h.iter().map(|p| [p[0] as i64, p[1] as i64]).collect();
  let mut qs = vec![];
  for x in -1..=w + 1 { for y in -1..=w + 1 { qs.push([x, y]) } }
  let Some((pts, qs)) = place::<S>(r, &v, &qs, w + 1) else { return Ok(()) };
  for k in 0..pts.len() {
    let mut p = pts.clone();
    p.rotate_left(k);
    ctx.nontrivial(key(&p));
    ctx.count("lattice");
    check(ctx, &PolygonConvex::new_unchecked(build(r, &p).0), &qs)?;
  }
  Ok(())
}
fn fam_lattice(ctx: &mut Ctx) -> Res {
  all_types!(ctx, lattice)
}
/// Hundreds to thousands of vertices: location everywhere, and validation.
fn big<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 60, if ctx.tier == Tier::Quick { 3000 } else { 9000 });
  let v = big_convex(r, n);
  let m = v.len();
  let mut q: Vec<V> = (0..30).map(|_| query(r, &v, 1 << 20)).collect();
  for _ in 0..30 {
    // near vertices and edges, in particular those next to the root
    let i = match r.below(4) { 0 => r.below(4), 1 => m - 1 - r.below(4), _ => r.below(m) };
    let (a, b) = (v[i], v[(i + 1) % m]);
    q.push(match r.below(5) {
      0 => a,
      1 => [a[0] + r.range(-2, 2), a[1] + r.range(-2, 2)],
      2 => [(a[0] * 9 + v[0][0]) / 10, (a[1] * 9 + v[0][1]) / 10],
      3 => [(a[0] + v[0][0]) / 2, (a[1] + v[0][1]) / 2],
      _ => [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2],
    });
  }
  let Some((pts, qs)) = place_big::<S>(r, &v, &q) else { return Ok(()) };
  ctx.nontrivial(key(&pts));
  ctx.count("big");
  ctx.max("vertices", m as f64);
  check(ctx, &PolygonConvex::new_unchecked(build(r, &pts).0), &qs)?;
  if m <= 700 {
    let mut v = v;
    let k = match r.below(3) { 0 => m - 1, 1 => 0, _ => r.below(m) };
    match r.below(4) {
      0 => { let (a, b) = (v[(k + 1) % m], v[(k + m - 1) % m]); if (a[0] + b[0]) % 2 == 0 && (a[1] + b[1]) % 2 == 0 { v[k] = [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2] } }
      1 => { let q = query(r, &v, 1 << 20); v[k] = q }
      2 => { let j = (k + 1) % m; v.swap(k, j) }
      _ => {}
    }
    let Some((pts, _)) = place_big::<S>(r, &v, &[]) else { return Ok(()) };
    ctx.eval();
    let want = with_ex!(exact(&pts), e => strictly_convex(e) && is_simple(e));
    ctx.count(if want { "big_valid" } else { "big_invalid" });
    let got = PolygonConvex::new_unchecked(Polygon::new_unchecked(pts.clone())).validate();
    ck!(got.is_ok() == want, "convex validate of {} says {:?}", show(&pts), got);
  }
  Ok(())
}
fn fam_big(ctx: &mut Ctx) -> Res {
  fast_types!(ctx, big)
}
/// Validation against exact strict convexity.
fn validate<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let n = 3 + r.below(9);
  let mut v = match r.below(6) {
    0 => { let c = convex_poly(r, n, lim); add_colinear(r, c) }
    1 => {
      // visit a convex polygon with a step: winds more than once
      let m = 5 + r.below(8);
      let c = convex_poly(r, m, lim);
      let s = 2 + r.below(2);
      if num_integer::gcd(c.len(), s) == 1 { ctx.count("winds_twice"); (0..c.len()).map(|i| c[i * s % c.len()]).collect() } else { c }
    }
    2 => simple_poly(r, n, lim),
    3 => { let mut c = convex_poly(r, n, lim); let k = r.below(c.len()); let j = r.below(c.len()); c.swap(k, j); c }
    4 => { let mut c = convex_poly(r, n, lim); c.reverse(); c }
    _ => { let mut c = convex_poly(r, n, lim); let k = r.below(c.len()); c[k] = query(r, &c, lim); c }
  };
  if r.chance(1, 10) { let q = *r.pick(&v); v.push(q) }
  if r.chance(1, 20) { v.truncate(r.below(3)) }
  // the boundary traversal of an empty polygon is not defined
  if v.is_empty() { return Ok(()) }
  let Some((pts, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
  ctx.nontrivial(key(&pts));
  ctx.eval();
  let want = with_ex!(exact(&pts), e => strictly_convex(e) && is_simple(e));
  ctx.count(if want { "valid" } else { "invalid" });
  let got = PolygonConvex::new_unchecked(Polygon::new_unchecked(pts.clone())).validate();
  ck!(got.is_ok() == want, "convex validate of {} says {:?}", show(&pts), got);
  Ok(())
}
fn fam_validate(ctx: &mut Ctx) -> Res {
  all_types!(ctx, validate)
}
/// More vertices than sixteen bits count.
fn huge<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = huge_n(r) + 2;
  let v = big_convex(r, n);
  let m = v.len();
  let mut q: Vec<V> = (0..8).map(|_| query(r, &v, 1 << 20)).collect();
  for _ in 0..12 {
    let i = match r.below(4) { 0 => r.below(4), 1 => m - 1 - r.below(4), 2 => ((1 << 16) - 2 + r.below(4)).min(m - 1), _ => r.below(m) };
    let (a, b) = (v[i], v[(i + 1) % m]);
    q.push(match r.below(4) {
      0 => a,
      1 => [a[0] + r.range(-2, 2), a[1] + r.range(-2, 2)],
      2 => [(a[0] + v[0][0]) / 2, (a[1] + v[0][1]) / 2],
      _ => [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2],
    });
  }
  let (Some(pts), Some(qs)) = (Emb::id().all::<S>(&v), Emb::id().all::<S>(&q)) else { return Ok(()) };
  ctx.nontrivial(&v);
  ctx.count("huge");
  ctx.max("vertices", m as f64);
  let p = PolygonConvex::new_unchecked(build_huge(r, &pts));
  let e = x128(&v);
  for (x, q) in x128(&q).iter().zip(&qs) {
    let w = locate(&e, x);
    ctx.eval();
    ck!(p.locate(q) == pl(w), "locate of {} in a convex polygon of {} vertices like {} is {:?}, exactly {:?}", show(&[q.clone()]), m, show(&pts[..3]), p.locate(q), w);
  }
  Ok(())
}
fn fam_huge(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, huge, [i32, i64, f64])
}
fn main() {
  engine::run_main(Property {
    id: "C11",
    rule: "a case is non-trivial and distinct by its polygon",
    assumptions: &["float coordinates stay where intermediate products neither overflow nor underflow"],
    families: vec![
      Family { name: "random", quick: 30000, thorough: 2000000, f: fam_random },
      Family { name: "lattice", quick: 6000, thorough: 300000, f: fam_lattice },
      Family { name: "validate", quick: 40000, thorough: 3000000, f: fam_validate },
      Family { name: "big", quick: 200, thorough: 10000, f: fam_big },
      Family { name: "huge", quick: 8, thorough: 300, f: fam_huge },
    ],
    require: &["inside", "boundary", "outside", "inside_on_fan_diagonal", "lattice", "valid", "invalid", "winds_twice", "big", "huge", "big_valid", "big_invalid"],
  })
}
