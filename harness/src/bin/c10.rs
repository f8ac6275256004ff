use rgeometry::data::{Point, PointLocation, Polygon};
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::sc::Sc;
use rgmon::*;

fn pl(l: Loc) -> PointLocation {
  match l { Loc::In => PointLocation::Inside, Loc::On => PointLocation::OnBoundary, Loc::Out => PointLocation::Outside }
}
fn check<S: Sc>(ctx: &mut Ctx, p: &Polygon<S>, qs: &[Point<S>]) -> Res {
  let mut all = boundary(p);
  let n = all.len();
  all.extend(qs.iter().cloned());
  with_ex!(exact(&all), e => {
    let (b, q) = e.split_at(n);
    for (i, x) in q.iter().enumerate() {
      let w = locate(b, x);
      ctx.eval();
      ctx.count(match w { Loc::In => "inside", Loc::On => "boundary", Loc::Out => "outside" });
      if w != Loc::On && b.iter().any(|v| v[1] == x[1]) { ctx.count("level_with_a_vertex") }
      let got = p.locate(&qs[i]);
      ck!(got == pl(w), "locate of {} in {} is {:?}, exactly {:?}", show(&qs[i..=i]), show(&all[..n]), got, w);
    }
    Ok(())
  })
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let n = if r.chance(1, 10) { 20 + r.below(60) } else { 3 + r.below(14) };
  if r.chance(1, 6) {
    let Some(p) = tangled::<S>(r, n.min(20), lim) else { return Ok(()) };
    let mut qs = boundary(&p);
    // mix coordinates of vertices
    for _ in 0..12 {
      let (a, b) = (r.below(qs.len()), r.below(qs.len()));
      qs.push(Point::new([qs[a].array[0].clone(), qs[b].array[1].clone()]));
    }
    ctx.count("tangled");
    return check(ctx, &p, &qs);
  }
  let v = simple_poly(r, n, lim);
  let q: Vec<V> = (0..16).map(|_| query(r, &v, lim)).collect();
  let Some((pts, qs)) = place::<S>(r, &v, &q, lim) else { return Ok(()) };
  ctx.sample(|| show(&pts));
  ctx.nontrivial(key(&pts));
  let (p, via) = build(r, &pts);
  ctx.count(&format!("via {:?}", via));
  check(ctx, &p, &qs)
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
/// A simple polygon on a small lattice against every half-lattice point around it.
fn lattice<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let w = r.range(1, 4);
  let mut g = grid(w);
  for _ in 0..200 {
    r.shuffle(&mut g);
    let n = 3 + r.below(7.min(g.len() - 2));
    let mut v: Vec<V> = g[..n].iter().map(|p| [2 * p[0], 2 * p[1]]).collect();
    let x = x128(&v);
    if !is_simple(&x) { continue }
    if area2(&x) < 0 { v.reverse() }
    let mut qs = vec![];
    for x in -1..=2 * w + 1 { for y in -1..=2 * w + 1 { qs.push([x, y]) } }
    let Some((pts, qs)) = place::<S>(r, &v, &qs, 2 * w + 1) else { return Ok(()) };
    ctx.nontrivial(key(&pts));
    ctx.count("lattice");
    let (p, _) = build(r, &pts);
    return check(ctx, &p, &qs);
  }
  Ok(())
}
fn fam_lattice(ctx: &mut Ctx) -> Res {
  all_types!(ctx, lattice)
}
/// Triangles and quadrilaterals of extreme values.
fn raw<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for _ in 0..4 {
    let n = 3 + r.below(2);
    let mut pts = raw_points::<S>(r, n);
    let ok = with_ex!(exact(&pts), e => {
      let ok = is_simple(e);
      if ok && sgn(&area2(e)) < 0 { pts.reverse() }
      ok
    });
    if !ok { continue }
    let mut qs = raw_points::<S>(r, 6);
    for _ in 0..4 { let k = r.below(pts.len()); let j = r.below(pts.len()); qs.push(Point::new([pts[k].array[0].clone(), pts[j].array[1].clone()])) }
    ctx.nontrivial(key(&pts));
    ctx.count("raw");
    let (p, _) = build(r, &pts);
    check(ctx, &p, &qs)?;
  }
  Ok(())
}
fn fam_raw(ctx: &mut Ctx) -> Res {
  all_types!(ctx, raw)
}
/// Hundreds to thousands of vertices.
fn big<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 60, if ctx.tier == Tier::Quick { 3000 } else { 9000 });
  let v = big_simple(r, n);
  let m = v.len();
  let mut q: Vec<V> = (0..24).map(|_| query(r, &v, 1 << 20)).collect();
  for i in [0, 1, m - 1, m - 2] { q.push(v[i]); q.push([(v[i][0] + v[(i + 1) % m][0]) / 2, (v[i][1] + v[(i + 1) % m][1]) / 2]); }
  let Some((pts, qs)) = place_big::<S>(r, &v, &q) else { return Ok(()) };
  ctx.nontrivial(key(&pts));
  ctx.count("big");
  ctx.max("vertices", m as f64);
  check(ctx, &build(r, &pts).0, &qs)
}
fn fam_big(ctx: &mut Ctx) -> Res {
  fast_types!(ctx, big)
}
/// More vertices than sixteen bits count.
fn huge<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = huge_n(r);
  let v = huge_simple(r, n);
  let m = v.len();
  let mut q: Vec<V> = (0..6).map(|_| query(r, &v, 1 << 20)).collect();
  for _ in 0..6 {
    let i = match r.below(3) { 0 => m - 1 - r.below(3), 1 => r.below(m), _ => ((1 << 16) - 2 + r.below(4)).min(m - 1) };
    let j = (i + 1) % m;
    q.push(v[i]);
    q.push([(v[i][0] + v[j][0]) / 2, (v[i][1] + v[j][1]) / 2]);
    q.push([v[i][0] + r.range(-1, 1), v[i][1] + r.range(-1, 1)]);
  }
  // level with some edge, near the ends of the polygon and far beyond them
  let (lo, hi) = v.iter().fold((v[0], v[0]), |(l, h), p| ([l[0].min(p[0]), l[1].min(p[1])], [h[0].max(p[0]), h[1].max(p[1])]));
  for _ in 0..4 {
    let i = r.below(m);
    let j = (i + 1) % m;
    let c = [(v[i][0] + v[j][0]) / 2, (v[i][1] + v[j][1]) / 2];
    let k = r.below(2);
    for e in [lo[k] + r.range(-3, 3), hi[k] + r.range(-3, 3)] {
      let mut c = c;
      c[k] = e;
      q.push(c);
    }
  }
  let (Some(pts), Some(qs)) = (Emb::id().all::<S>(&v), Emb::id().all::<S>(&q)) else { return Ok(()) };
  ctx.nontrivial(&v);
  ctx.count("huge");
  ctx.max("vertices", m as f64);
  let p = build_huge(r, &pts);
  let e = x128(&v);
  for (x, q) in x128(&q).iter().zip(&qs) {
    let w = locate(&e, x);
    ctx.eval();
    ck!(p.locate(q) == pl(w), "locate of {} in a polygon of {} vertices like {} is {:?}, exactly {:?}", show(&[q.clone()]), m, show(&pts[..3]), p.locate(q), w);
  }
  Ok(())
}
fn fam_huge(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, huge, [i32, i64, isize])
}
fn main() {
  engine::run_main(Property {
    id: "C10",
    rule: "a case is non-trivial and distinct by its polygon",
    assumptions: &["float coordinates stay where intermediate products neither overflow nor underflow"],
    families: vec![
      Family { name: "random", quick: 30000, thorough: 2000000, f: fam_random },
      Family { name: "lattice", quick: 6000, thorough: 400000, f: fam_lattice },
      Family { name: "raw", quick: 8000, thorough: 400000, f: fam_raw },
      Family { name: "big", quick: 200, thorough: 10000, f: fam_big },
      Family { name: "huge", quick: 24, thorough: 300, f: fam_huge },
    ],
    require: &["inside", "boundary", "outside", "level_with_a_vertex", "lattice", "raw", "big", "huge", "tangled", "via NewReversed"],
  })
}
