use rgeometry::algorithms::polygonization::two_opt_moves;
use rgeometry::data::Point;
use rgeometry::Error;
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::hulls::lattice_seq;
use rgmon::rng::Hostile;
use rgmon::sc::Sc;
use rgmon::*;

fn run<S: Sc>(ctx: &mut Ctx, pts: &[Point<S>], h: Hostile) -> Res {
  let name = h.name();
  let mut h = h;
  let got = two_opt_moves(pts.to_vec(), &mut h);
  ctx.eval();
  ctx.count(&format!("stream {}", name));
  let n = pts.len();
  let mut all = pts.to_vec();
  if let Ok(p) = &got { all.extend(boundary(p)) }
  with_ex!(exact(&all), e => {
    let (q, b) = e.split_at(n);
    let dups = has_dups(q);
    let flat = all_colinear(q);
    match &got {
      Err(err) => {
        ck!(dups || n < 3 || flat, "two_opt_moves({}) ({} stream) failed with {:?}", show(pts), name, err);
        let ok = match err {
          Error::DuplicatePoints => dups,
          Error::InsufficientVertices => n < 3 || flat,
          Error::CoLinearViolation => flat,
          _ => false,
        };
        ck!(ok, "two_opt_moves({}) reports {:?}", show(pts), err);
        ctx.count(if dups { "error duplicates" } else if n < 3 { "error few" } else { "error colinear" });
      }
      Ok(p) => {
        ck!(!dups && n >= 3 && !flat, "two_opt_moves({}) returned a polygon", show(pts));
        ck!(b.len() == n, "two_opt_moves({}) has {} vertices on its boundary", show(pts), b.len());
        let (mut x, mut y) = (q.to_vec(), b.to_vec());
        x.sort();
        y.sort();
        ck!(x == y, "two_opt_moves({}) ({} stream) does not visit each point once: {}", show(pts), name, show(&all[n..]));
        ck!(is_simple(b), "two_opt_moves({}) ({} stream) is not simple: {}", show(pts), name, show(&all[n..]));
        ck!(sgn(&area2(b)) > 0, "two_opt_moves({}) ({} stream) is clockwise: {}", show(pts), name, show(&all[n..]));
        ck!(p.validate().is_ok(), "two_opt_moves({}) does not validate", show(pts));
        ctx.count("polygons");
        if with_flat_b(b) { ctx.count("flat_vertices"); }
        if !is_rotation(q, b) && !is_rotation(q, &reversed(b)) { ctx.count("untangled"); }
        ctx.max("vertices", n as f64);
      }
    }
    Ok(())
  })
}
fn with_flat_b<N: Nm>(b: &[P<N>]) -> bool {
  let n = b.len();
  (0..n).any(|i| orient(&b[i], &b[(i + 1) % n], &b[(i + 2) % n]) == 0)
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let n = match r.below(12) { 0 => r.below(4), 1 => 15 + r.below(15), _ => 3 + r.below(10) };
  let v = point_set(r, n, lim);
  let v = if r.chance(1, 8) { v } else { distinct(v, r) };
  let Some((pts, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
  ctx.sample(|| show(&pts));
  ctx.nontrivial(key(&pts));
  let h = Hostile::pick(r);
  run(ctx, &pts, h)
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
/// Subsets of small grids in random order: many colinear, overlapping edges.
fn small<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for _ in 0..3 {
    let (w, hgt) = (r.range(1, 5), r.range(0, 3));
    let mut g: Vec<V> = vec![];
    for x in 0..=w { for y in 0..=hgt { g.push([x, y]) } }
    r.shuffle(&mut g);
    let n = 3 + r.below(12);
    g.truncate(n);
    if r.chance(1, 4) {
      // several lines through one point
      for p in g.iter_mut() { *p = [p[0] * (p[1] + 1), p[0] - p[1]] }
      g = distinct(g, r);
    }
    let Some((pts, _)) = place::<S>(r, &g, &[], 40) else { return Ok(()) };
    ctx.nontrivial(key(&pts));
    let h = Hostile::pick(r);
    run(ctx, &pts, h)?;
  }
  ctx.count("small");
  Ok(())
}
fn fam_small(ctx: &mut Ctx) -> Res {
  all_types!(ctx, small)
}
/// Sequences over the 3x3 lattice: all up to four points, then longer ones.
fn lattice(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for i in 0..81 {
    let v = lattice_seq(ctx.case * 81 + i, 7);
    let pts = Emb::id().all::<i32>(&v).unwrap();
    let h = Hostile::pick(r);
    run(ctx, &pts, h)?;
  }
  // and long distinct ones
  let mut g = grid(2);
  for _ in 0..20 {
    r.shuffle(&mut g);
    let n = 5 + r.below(5);
    let pts = Emb::id().all::<i64>(&g[..n]).unwrap();
    let h = Hostile::pick(r);
    run(ctx, &pts, h)?;
  }
  ctx.nontrivial(ctx.case);
  ctx.count("lattice");
  Ok(())
}
fn raw<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = r.below(9);
  let pts = raw_points::<S>(r, n);
  ctx.count("raw");
  ctx.nontrivial(key(&pts));
  let h = Hostile::pick(r);
  run(ctx, &pts, h)
}
fn fam_raw(ctx: &mut Ctx) -> Res {
  all_types!(ctx, raw)
}
fn large<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = 40 + r.below(if ctx.tier == Tier::Quick { 40 } else { 120 });
  let lim = if S::MAX == 127 { 127 } else { *r.pick(&[5, 12, 1 << 20]) };
  let v = point_set(r, n, lim);
  let v = distinct(v, r);
  let Some((pts, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
  ctx.count("large");
  ctx.nontrivial(key(&pts));
  let h = Hostile::pick(r);
  run(ctx, &pts, h)
}
fn fam_large(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, large, [i8, i64, f64])
}
/// Almost all points on one line, in any position of the list, and repeated
/// points far apart.
fn needle<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lo = if r.chance(1, 2) { 20 } else { 67 };
  let n = big_n(r, lo, if ctx.tier == Tier::Quick { 150 } else { 300 });
  let (dx, dy) = *r.pick(&[(1i64, 0i64), (0, 1), (1, 1), (2, -1)]);
  let mut v: Vec<V> = (0..n as i64).map(|i| [dx * (i - n as i64 / 2), dy * (i - n as i64 / 2)]).collect();
  if r.chance(1, 4) { r.shuffle(&mut v) }
  for _ in 0..r.below(3) {
    let k = match r.below(5) { 0 => n - 1, 1 => 0, 2 => r.below(n.min(6)), 3 => n - 1 - r.below(n.min(6)), _ => r.below(n) };
    v[k] = [v[k][0] + if dy == 0 { 0 } else { 1 }, v[k][1] + if dy == 0 { 1 } else { 0 }];
  }
  if r.chance(1, 3) { let (a, b) = (r.below(n), r.below(n)); v[a] = v[b] }
  let Some((pts, _)) = place_big::<S>(r, &v, &[]) else { return Ok(()) };
  ctx.count("needle");
  ctx.nontrivial(key(&pts));
  let h = Hostile::pick(r);
  run(ctx, &pts, h)
}
fn fam_needle(ctx: &mut Ctx) -> Res {
  fast_types!(ctx, needle)
}
fn main() {
  engine::run_main(Property {
    id: "C19",
    rule: "a case is non-trivial and distinct by its point list",
    assumptions: &["float coordinates stay where intermediate products neither overflow nor underflow"],
    families: vec![
      Family { name: "random", quick: 80000, thorough: 1500000, f: fam_random },
      Family { name: "small", quick: 10000, thorough: 700000, f: fam_small },
      Family { name: "lattice", quick: 200, thorough: 60000, f: lattice },
      Family { name: "raw", quick: 60000, thorough: 700000, f: fam_raw },
      Family { name: "large", quick: 240, thorough: 4000, f: fam_large },
      Family { name: "needle", quick: 2000, thorough: 8000, f: fam_needle },
    ],
    require: &["polygons", "untangled", "flat_vertices", "error duplicates", "error few", "error colinear", "stream zero", "stream low", "stream high", "small", "lattice", "raw", "large", "needle"],
  })
}
