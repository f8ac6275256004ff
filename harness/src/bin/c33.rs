//! Counts the coordinate operations of the real code through an instrumented
//! coordinate type.
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::polygonization::{new_monotone_polygon, new_star_polygon, two_opt_moves};
use rgeometry::algorithms::segment_intersections;
use rgeometry::algorithms::triangulation::earclip::{earclip, earclip_hashed};
use rgeometry::data::*;
use rgmon::cnt::{measure, Cnt};
use rgmon::ex;
use rgmon::gen::{x128, V};
use rgmon::rng::{Hostile, Rg};
use rgmon::*;

fn pt(v: &V) -> Point<Cnt> {
  Point::new([Cnt(v[0]), Cnt(v[1])])
}
fn pts(v: &[V]) -> Vec<Point<Cnt>> {
  v.iter().map(pt).collect()
}
fn lg(n: usize) -> f64 {
  (n.max(2) as f64).log2()
}
/// Runs `f` under the budget `a * size + b`; keeps the largest share of it seen.
fn judge<R>(ctx: &mut Ctx, what: &'static str, shape: &str, n: usize, a: f64, size: f64, b: f64, f: impl FnOnce() -> R) -> Result<R, String> {
  let limit = (a * size + b).ceil();
  match measure(limit as u64, f) {
    Ok((r, t)) => {
      ctx.eval();
      // copies of coordinates are work as well
      ck!(t.clones as f64 <= 4.0 * limit + 100.0, "{} on {} with {} points makes {} copies of coordinates, {} operations allowed", what, shape, n, t.clones, limit);
      ctx.count(&format!("measured:{}", what));
      ctx.countn("coordinate operations counted", t.work());
      ctx.max(&format!("{}: most operations per allowed operation", what), if limit > 0.0 { t.work() as f64 / limit } else { 0.0 });
      ctx.max(&format!("{}: most copies per allowed operation", what), if limit > 0.0 { t.clones as f64 / limit } else { t.clones as f64 });
      ctx.max(&format!("{}: largest size", what), n as f64);
      ctx.nontrivial((what, shape, n, t.work()));
      ctx.sample(|| format!("{} on {} with {} points: {:?}, allowed {}", what, shape, n, t, limit));
      Ok(r)
    }
    Err(m) if m.contains("budget used up") => Err(format!("{} on {} with {} points makes more than {} operations on coordinates", what, shape, n, limit)),
    Err(m) => Err(format!("{} on {} with {} points: {}", what, shape, n, m)),
  }
}
fn size(r: &mut Rg, max: usize) -> usize {
  // the larger sizes tell growth rates apart
  match r.below(4) {
    0 => 3 + r.below(30),
    1 => 30 + r.below(300.min(max - 30)),
    _ => max / 2 + r.below(max / 2),
  }
}

// --- point sets ------------------------------------------------------------------------
fn cloud(r: &mut Rg, n: usize) -> (Vec<V>, &'static str) {
  let big = 1i64 << 28;
  let (mut v, name): (Vec<V>, &'static str) = match r.below(9) {
    0 => ((0..n).map(|_| [r.range(-big, big), r.range(-big, big)]).collect(), "random"),
    1 => {
      let g = r.range(1, 8);
      ((0..n).map(|_| [r.range(-g, g), r.range(-g, g)]).collect(), "small grid")
    }
    2 => ((0..n as i64).map(|i| [i, i * i]).collect(), "parabola"),
    3 => {
      let (dx, dy) = (r.range(0, 3), r.range(1, 3));
      let mut v: Vec<V> = (0..n as i64).map(|i| [i * dx, i * dy]).collect();
      v[0] = [7 - dx, -3];
      (v, "line and a point")
    }
    4 => {
      let w = (n as f64).sqrt() as i64 + 1;
      ((0..n as i64).map(|i| [i % w, i / w]).collect(), "lattice")
    }
    5 => (
      (0..n).map(|i| { let a = i as f64 / n as f64 * std::f64::consts::TAU; [(a.cos() * 1e8) as i64, (a.sin() * 1e8) as i64] }).collect(),
      "circle",
    ),
    6 => {
      let mut v = vec![[0i64, 0]; n];
      v[n / 2] = [5, 1];
      v[n / 3] = [1, 5];
      (v, "one point many times")
    }
    7 => {
      let k = 3 + r.below(5);
      ((0..n).map(|i| { let a = (i % k) as f64; [(a * 17.0) as i64 % 5 * 1000 + (i / k) as i64, (i % k) as i64 * 100] }).collect(), "few lines")
    }
    _ => (
      // hull of three points, everything else inside in colinear fans
      (0..n as i64).map(|i| match i { 0 => [0, 0], 1 => [100_000_000, 0], 2 => [0, 100_000_000], _ => [1 + i, 1 + i] }).collect(),
      "fan inside a triangle",
    ),
  };
  match r.below(4) {
    0 => v.sort(),
    1 => { v.sort(); v.reverse() }
    2 => r.shuffle(&mut v),
    _ => {}
  }
  (v, name)
}
fn hulls(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = size(r, 4000);
  let (v, name) = cloud(r, n);
  let p = pts(&v);
  let hull = ex::hull(&x128(&v));
  judge(ctx, "graham_scan", name, n, 12.0, n as f64 * lg(n), 200.0, || graham_scan::convex_hull(p).is_ok())?;
  let p = pts(&v);
  judge(ctx, "convex_hull", name, n, 12.0, n as f64 * lg(n), 200.0, || rgeometry::algorithms::convex_hull(p).is_ok())?;
  let h = hull.len().max(1) as f64;
  if n as f64 * h < 2e6 {
    let p = pts(&v);
    judge(ctx, "gift_wrapping", name, n, 12.0, n as f64 * (h + 1.0), 200.0, || gift_wrapping::convex_hull(p).is_ok())?;
    ctx.max("gift_wrapping: largest hull", h);
  }
  Ok(())
}

// --- convex polygons -------------------------------------------------------------------
fn convex(r: &mut Rg, n: usize) -> (Vec<V>, &'static str) {
  let n64 = n as i64;
  let (mut v, name): (Vec<V>, &'static str) = match r.below(4) {
    0 => ((0..n64).map(|i| [i, i * i]).collect(), "parabola"),
    1 => (
      // wide and flat
      (0..n64).map(|i| [i * 50_000, i * (i - n64)]).collect(),
      "flat parabola",
    ),
    2 => {
      let pts = (0..n).map(|i| { let a = i as f64 / n as f64 * std::f64::consts::TAU; [(a.cos() * 5e8) as i128, (a.sin() * 5e8) as i128] }).collect::<Vec<_>>();
      (ex::hull(&pts).iter().map(|p| [p[0] as i64, p[1] as i64]).collect(), "circle")
    }
    _ => {
      let pts: Vec<[i128; 2]> = (0..n).map(|_| { let a = r.below(1 << 20) as f64 / (1 << 20) as f64 * std::f64::consts::TAU; [(a.cos() * 5e8) as i128, (a.sin() * 2e8) as i128] }).collect();
      (ex::hull(&pts).iter().map(|p| [p[0] as i64, p[1] as i64]).collect(), "ellipse")
    }
  };
  if v.len() < 3 {
    v = vec![[0, 0], [1, 0], [0, 1]];
  }
  let k = r.below(v.len());
  v.rotate_left(k);
  (v, name)
}
fn convex_location(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = if r.chance(1, 3) { size(r, 200) } else { size(r, 20000) };
  let (v, name) = convex(r, n);
  let n = v.len();
  let c = PolygonConvex::new_unchecked(Polygon::new_unchecked(pts(&v)));
  for _ in 0..30 {
    let (a, b) = (v[r.below(n)], v[r.below(n)]);
    let q = match r.below(5) {
      0 => a,
      1 => [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2],
      2 => [a[0] + r.range(-2, 2), a[1] + r.range(-2, 2)],
      3 => [a[0], b[1]],
      _ => [r.range(-(1 << 30), 1 << 30), r.range(-(1 << 30), 1 << 30)],
    };
    let q = pt(&q);
    let where_ = judge(ctx, "PolygonConvex::locate", name, n, 6.0, lg(n), 40.0, || c.locate(&q))?;
    ctx.count(&format!("located {:?}", where_));
  }
  Ok(())
}
fn random_convex(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = size(r, 6000);
  let mut g = r.fork();
  let c = judge(ctx, "PolygonConvex::random", "fair stream", n, 40.0, n as f64 * lg(n), 400.0, || PolygonConvex::<Cnt>::random(n, &mut g))?;
  ctx.max("PolygonConvex::random: most vertices", c.iter().count() as f64);
  Ok(())
}

// --- constant work ----------------------------------------------------------------------
fn constant(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = size(r, 4000);
  let (v, name) = cloud(r, n);
  let g = Polygon::new_unchecked(pts(&v));
  let ids: Vec<PointId> = g.boundary_slice().to_vec();
  for _ in 0..10 {
    let k = r.below(n);
    let id = ids[k];
    judge(ctx, "Polygon::point", name, n, 0.0, 1.0, 0.0, || g.point(id).array[0].0)?;
    let next = judge(ctx, "Polygon::cursor and steps", name, n, 0.0, 1.0, 0.0, || {
      let c = g.cursor(id);
      (c.point_id(), c.next().prev().point_id(), c.next().point_id())
    })?;
    ck!(next.0 == id && next.1 == id && next.2 == ids[(k + 1) % n], "cursor steps from {:?} lead to {:?}", id, next);
    judge(ctx, "Cursor::orientation", name, n, 0.0, 1.0, 12.0, || (g.cursor(id).orientation(), g.cursor(id).is_colinear()))?;
    let (a, b, c) = (&g.iter().nth(k).unwrap().clone(), g.point(ids[0]), g.point(ids[n / 2]));
    let t = TriangleView::new_unchecked([a, b, c]);
    judge(ctx, "TriangleView::orientation", name, n, 0.0, 1.0, 4.0, || t.orientation())?;
    judge(ctx, "TriangleView::new", name, n, 0.0, 1.0, 12.0, || TriangleView::new([a, b, c]).is_ok())?;
    let flat = ex::orient(&[a.array[0].0 as i128, a.array[1].0 as i128], &[b.array[0].0 as i128, b.array[1].0 as i128], &[c.array[0].0 as i128, c.array[1].0 as i128]) == 0;
    if !flat {
      let u = TriangleView::new_ccw([a, b, c]);
      let q = pt(r.pick(&v));
      judge(ctx, "TriangleView::locate", name, n, 0.0, 1.0, 20.0, || u.locate(&q))?;
      judge(ctx, "TriangleView::bounding_box", name, n, 0.0, 1.0, 24.0, || u.bounding_box())?;
    }
  }
  let p = pts(&v);
  judge(ctx, "Polygon::new_unchecked", name, n, 0.0, 1.0, 0.0, || Polygon::new_unchecked(p))?;
  let g = g.clone();
  judge(ctx, "PolygonConvex::new_unchecked", name, n, 0.0, 1.0, 0.0, || cfg!(debug_assertions) || PolygonConvex::new_unchecked(g).iter().count() > 0)?;
  Ok(())
}

// --- simple polygons ----------------------------------------------------------------------
/// Large simple counter-clockwise polygons, many of them awkward for ear clipping.
fn shape(r: &mut Rg, n: usize) -> (Vec<V>, &'static str) {
  let n64 = n as i64;
  let (v, name): (Vec<V>, &'static str) = match r.below(8) {
    0 => convex(r, n),
    1 => {
      // comb
      let m = (n64 / 2).max(2);
      let mut v = vec![[0, -1], [2 * m, -1]];
      for i in (0..2 * m).rev().step_by(2) {
        v.push([i + 1, 0]);
        v.push([i, 1000]);
      }
      v.truncate(n.max(4));
      (v, "comb")
    }
    2 => {
      // square spiral corridor
      let turns = (n64 / 8).max(1);
      let mut path: Vec<V> = vec![[0, 0]];
      let (mut x, mut y, mut len) = (0i64, 0i64, 4i64);
      for i in 0..4 * turns {
        match i % 4 { 0 => x += len, 1 => y += len, 2 => x -= len, _ => y -= len }
        path.push([x, y]);
        if i % 2 == 1 { len += 4 }
      }
      // both sides of the path
      let k = path.len();
      let mut left = vec![];
      let mut right = vec![];
      for i in 0..k {
        let d0 = if i > 0 { [(path[i][0] - path[i - 1][0]).signum(), (path[i][1] - path[i - 1][1]).signum()] } else { [1, 0] };
        let d1 = if i + 1 < k { [(path[i + 1][0] - path[i][0]).signum(), (path[i + 1][1] - path[i][1]).signum()] } else { d0 };
        let nrm = if d0 == d1 { [-d0[1], d0[0]] } else { [-d0[1] - d1[1], d0[0] + d1[0]] };
        left.push([path[i][0] + nrm[0], path[i][1] + nrm[1]]);
        right.push([path[i][0] - nrm[0], path[i][1] - nrm[1]]);
      }
      left.reverse();
      right.extend(left);
      (right, "spiral")
    }
    3 => {
      // star around the origin
      (
        (0..n).map(|i| { let a = i as f64 / n as f64 * std::f64::consts::TAU; let l = 1e7 + r.range(0, 90_000_000) as f64; [(a.cos() * l) as i64, (a.sin() * l) as i64] }).collect(),
        "star",
      )
    }
    4 => {
      // sawtooth over a reflex chain
      let mut v: Vec<V> = (0..n64 - 1).map(|i| [i * 1000, -(i * (n64 - 2 - i)) ]).collect();
      v.reverse();
      let mut w = vec![[0, -10_000_000], [(n64 - 2) * 1000, -10_000_000]];
      w.extend(v);
      (w, "reflex chain")
    }
    5 => {
      let k = n64 / 4;
      let mut v: Vec<V> = vec![];
      for i in 0..k { v.push([i, 0]) }
      for i in 0..k { v.push([k, i]) }
      for i in 0..k { v.push([k - i, k]) }
      for i in 0..k { v.push([0, k - i]) }
      (v, "square with flat vertices")
    }
    6 => {
      let h = 1 + r.range(0, 1000);
      let mut v: Vec<V> = (0..n64 / 2).map(|i| [i * 3, -r.range(1, h)]).collect();
      let mut up: Vec<V> = (0..n64 / 2).map(|i| [i * 3 + 1, r.range(1, h)]).collect();
      up.reverse();
      v.extend(up);
      (v, "monotone")
    }
    _ => (rgmon::gen::simple_poly(r, n.min(300), 1 << 20), "generated"),
  };
  let e = x128(&v);
  if v.len() >= 3 && (n <= 3000 && ex::is_simple(&e) || n > 3000) {
    let mut v = v;
    if ex::area2(&e) < 0 { v.reverse() }
    let k = r.below(v.len());
    v.rotate_left(k);
    return (v, name);
  }
  (convex(r, n).0, "convex")
}
fn linear(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = size(r, 3000);
  let (v, name) = shape(r, n);
  let n = v.len();
  let g = Polygon::new_unchecked(pts(&v));
  for _ in 0..4 {
    let a = *r.pick(&v);
    let q = pt(&match r.below(3) { 0 => a, 1 => [a[0] + r.range(-2, 2), a[1] + r.range(-2, 2)], _ => [r.range(-1000, 1000), r.range(-1000, 1000)] });
    judge(ctx, "Polygon::locate", name, n, 24.0, n as f64, 60.0, || g.locate(&q))?;
  }
  judge(ctx, "Polygon::orientation", name, n, 8.0, n as f64, 40.0, || g.orientation())?;
  judge(ctx, "Polygon::bounding_box", name, n, 16.0, n as f64, 40.0, || g.bounding_box())?;
  let area: i128 = judge(ctx, "signed_area_2x", name, n, 12.0, n as f64, 40.0, || g.signed_area_2x::<Cnt>().0 as i128)?;
  ck!(area == ex::area2(&x128(&v)), "doubled area of {} with {} vertices is {}", name, n, area);
  judge(ctx, "signed_area", name, n, 12.0, n as f64, 40.0, || g.signed_area_2x::<Cnt>())?;
  if v.iter().flatten().all(|c| c.abs() < 1 << 18) {
    judge(ctx, "centroid", name, n, 24.0, n as f64, 80.0, || g.centroid())?;
  }
  let h = judge(ctx, "melkman", name, n, 24.0, n as f64, 60.0, || melkman::convex_hull(&g))?;
  ck!(h.iter().count() == ex::hull(&x128(&v)).len(), "hull of {} with {} vertices has {}", name, n, h.iter().count());
  judge(ctx, "is_monotone", name, n, 24.0, n as f64, 60.0, || g.is_monotone(&Vector([Cnt(1), Cnt(0)])))?;
  let mut w = pts(&v);
  w.reverse();
  let mut b = Polygon::new_unchecked(w);
  judge(ctx, "ensure_ccw", name, n, 16.0, n as f64, 60.0, || b.ensure_ccw().is_ok())?;
  Ok(())
}
fn quadratic(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = size(r, 700);
  let (v, name) = shape(r, n);
  let n = v.len();
  let g = Polygon::new_unchecked(pts(&v));
  let n2 = (n * n) as f64;
  match r.below(5) {
    0 => {
      let ok = judge(ctx, "Polygon::validate", name, n, 30.0, n2, 400.0, || g.validate().is_ok())?;
      ck!(ok, "{} with {} vertices does not validate", name, n);
      judge(ctx, "Polygon::validate_weakly", name, n, 30.0, n2, 400.0, || g.validate_weakly().is_ok())?;
    }
    1 => {
      let w = pts(&v);
      judge(ctx, "Polygon::new", name, n, 30.0, n2, 400.0, || Polygon::new(w).is_ok())?;
    }
    2 => {
      let es: Vec<DirectedEdge<'_, Cnt>> = g.iter_boundary_edges().collect();
      judge(ctx, "segment_intersections", name, n, 30.0, n2, 400.0, || segment_intersections(&es).count())?;
      // everything crosses everything
      let m = n.min(200);
      let ends: Vec<(Point<Cnt>, Point<Cnt>)> = (0..m as i64).map(|i| (pt(&[i * 1000, 0]), pt(&[-i * 997 + 5, 1000]))).collect();
      let es: Vec<DirectedEdge<'_, Cnt>> = ends.iter().map(|(a, b)| DirectedEdge { src: a, dst: b }).collect();
      judge(ctx, "segment_intersections", "crossing lines", m, 30.0, (m * m) as f64, 400.0, || segment_intersections(&es).count())?;
    }
    3 => {
      let k = judge(ctx, "triangulate", name, n, 30.0, n2, 400.0, || g.triangulate().count())?;
      ck!(k == n - 2, "{} with {} vertices has {} triangles", name, n, k);
      judge(ctx, "earclip", name, n, 30.0, n2, 400.0, || earclip(&g).count())?;
    }
    _ => {
      let k = judge(ctx, "earclip_hashed", name, n, 40.0, n2, 400.0, || earclip_hashed(&g).count())?;
      ck!(k == n - 2, "{} with {} vertices has {} triangles", name, n, k);
      // expected linear: vertices spread evenly along a convex boundary
      let k = 1000 + 1000 * r.below(4);
      let (v, name) = convex(r, k);
      let n = v.len();
      let g = Polygon::new_unchecked(pts(&v));
      judge(ctx, "earclip_hashed, even spread", name, n, 150.0, n as f64, 4000.0, || earclip_hashed(&g).count())?;
    }
  }
  Ok(())
}
fn polygonization(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = size(r, 60).min(30 + r.below(20));
  let (mut v, name) = cloud(r, n);
  v.sort();
  v.dedup();
  r.shuffle(&mut v);
  let n = v.len();
  let p = pts(&v);
  let mut h = Hostile::pick(r);
  if matches!(h, Hostile::Zero) {
    h = Hostile::Fair(r.fork());
  }
  judge(ctx, "two_opt_moves", name, n, 4.0, (n * n * n * n) as f64, 4000.0, || two_opt_moves(p, &mut h).is_ok())?;
  let m = size(r, 2000);
  let (v, name) = cloud(r, m);
  let p = pts(&v);
  judge(ctx, "new_monotone_polygon", name, m, 24.0, (m * m) as f64, 4000.0, || new_monotone_polygon(p, &Vector([Cnt(1), Cnt(2)])).is_ok())?;
  let p = pts(&v);
  let c = pt(&v[0]);
  judge(ctx, "new_star_polygon", name, m, 60.0, (m * m) as f64, 4000.0, || new_star_polygon(p, &c).is_ok())?;
  Ok(())
}

// --- very large inputs --------------------------------------------------------------------
/// Moving elements about and other work that no coordinate operation shows: with
/// hundreds of thousands of points, a quadratic number of steps of any kind takes
/// longer than the watchdog allows; the documented growth takes a second.
fn very_large(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = 250_000 + r.below(100_000);
  let mk = |v: &[V]| -> Vec<Point<i64>> { v.iter().map(|q| Point::new(*q)).collect() };
  let what = match ctx.case % 7 {
    0 => {
      // a hull of few or of very many vertices
      let v = if r.chance(1, 2) { rgmon::gen::big_points(r, 2 * n) } else { let mut v = rgmon::gen::big_convex(r, 2 * n); r.shuffle(&mut v); v };
      let want = ex::hull(&x128(&v)).len();
      let h = graham_scan::convex_hull(mk(&v));
      ck!(h.map(|h| h.iter().count()).unwrap_or(0).max(2) == want.max(2), "hull of {} points", n);
      "hull"
    }
    1 => {
      let v = if r.chance(1, 2) { rgmon::gen::huge_simple(r, n) } else { rgmon::gen::big_convex(r, 2 * n) };
      let p = Polygon::new_unchecked(mk(&v));
      let h = melkman::convex_hull(&p);
      ck!(h.iter().count() == ex::hull(&x128(&v)).len(), "hull of a polygon with {} vertices", n);
      "polygon hull"
    }
    2 => {
      let p = PolygonConvex::<i64>::random(n, &mut r.fork());
      ck!(p.iter().count() <= n, "random({}) has {} vertices", n, p.iter().count());
      "random convex"
    }
    3 => {
      let v = rgmon::gen::huge_simple(r, n);
      let mut p = Polygon::new_unchecked(mk(&v));
      let m = p.iter().count();
      ck!(p.orientation().is_ccw(), "orientation of a polygon with {} vertices", n);
      p.bounding_box();
      ck!(p.signed_area_2x::<i128>() == ex::area2(&x128(&v)), "area of a polygon with {} vertices", n);
      p.is_monotone(&Vector([1, 0]));
      for _ in 0..10 { p.locate(&Point::new(*r.pick(&v))); }
      ck!(p.ensure_ccw().is_ok(), "ensure_ccw of a polygon with {} vertices", n);
      let q = p.clone().map_points(|q| q);
      let f = q.clone().map(|c| c as f64);
      ck!(f.iter_boundary().count() == m && q.iter_boundary().rev().count() == m && p.iter_boundary_edges().count() == m, "boundary of a polygon with {} vertices", n);
      let mut c = p.iter_boundary().next().unwrap();
      for _ in 0..m { c.move_next() }
      for _ in 0..m { c.move_prev() }
      // constant: every vertex, in any order
      for turn in 0..3 {
        let mut ids = p.boundary_slice().to_vec();
        if turn > 0 { r.shuffle(&mut ids) }
        for id in ids {
          let c = p.cursor(id);
          ck!(c.point_id() == id && c.next().prev() == c && c.point() == p.point(id), "cursor of {:?}", id);
          p.direct(rgeometry::data::IndexEdge::new(id, c.next().point_id()));
          p.iter_boundary().len();
        }
      }
      ck!(p.equals(&q), "a polygon with {} vertices differs from its copy", n);
      "polygon"
    }
    4 => {
      let v = rgmon::gen::big_convex(r, n);
      let p = PolygonConvex::new_unchecked(Polygon::new_unchecked(mk(&v)));
      // logarithmic: a million queries
      let mut inside = 0u64;
      for _ in 0..1_000_000 { if p.locate(&Point::new(*r.pick(&v))) == PointLocation::OnBoundary { inside += 1 } }
      ck!(inside == 1_000_000, "vertices of a convex polygon with {} vertices are not on its boundary", n);
      "convex location"
    }
    5 => {
      // millions of intersections come and go; each removal takes what it removes
      let m = 1000;
      let proxy = Polygon::new_unchecked(vec![Point::new([0i8, 0]); m]);
      let ids = proxy.boundary_slice();
      let mut edges: Vec<IndexEdge> = (0..1500).map(|i| IndexEdge::new(ids[i % m], ids[(i + 1 + i / m) % m])).collect();
      r.shuffle(&mut edges);
      let mut s = IndexIntersectionSet::new(m);
      let mut all = vec![];
      for i in 0..edges.len() { for j in i + 1..edges.len() { all.push(IndexIntersection::new(edges[i], edges[j])) } }
      if r.chance(1, 2) { r.shuffle(&mut all) }
      let total = all.len();
      for i in all { s.push(i) }
      for _ in 0..300_000 { if s.random(r).is_none() { return Err("nothing is drawn from a full set".into()) } }
      let hub = edges.len() / 2;
      for (k, e) in edges.iter().enumerate() {
        s.remove_all(*e);
        for _ in 0..200 { if s.random(r).is_none() != (k + 2 >= edges.len()) { return Err(format!("drawing after {} of {} edges are removed", k + 1, edges.len())) } }
        if k == hub { let left = edges.len() - k - 1; ck!(s.iter().count() == left * (left - 1) / 2, "{} of {} intersections remain", s.iter().count(), total) }
      }
      ctx.max("intersections at once", total as f64);
      "intersection set"
    }
    _ => {
      let v = rgmon::gen::big_convex(r, n);
      let m = v.len();
      ck!(earclip_hashed(&Polygon::new_unchecked(mk(&v))).count() == m - 2, "hashed triangulation of {} vertices", m);
      "hashed triangulation"
    }
  };
  ctx.eval();
  ctx.count(&format!("very large {}", what));
  ctx.nontrivial((what, n));
  Ok(())
}

fn main() {
  engine::run_main(Property {
    id: "C33",
    rule: "one measured call, distinct by function, shape, size and number of operations",
    assumptions: &[
      "an operation is one comparison or arithmetic operation of the coordinate type, or one of its geometric comparisons",
      "budgets are a constant times the documented growth; constants leave about a factor of three over the largest observed",
    ],
    families: vec![
      Family { name: "hulls", quick: 1500, thorough: 60_000, f: hulls },
      Family { name: "convex_location", quick: 1500, thorough: 60_000, f: convex_location },
      Family { name: "random_convex", quick: 150, thorough: 5_000, f: random_convex },
      Family { name: "constant", quick: 600, thorough: 20_000, f: constant },
      Family { name: "linear", quick: 1500, thorough: 60_000, f: linear },
      Family { name: "quadratic", quick: 1000, thorough: 40_000, f: quadratic },
      Family { name: "polygonization", quick: 150, thorough: 5_000, f: polygonization },
      Family { name: "very_large", quick: 21, thorough: 350, f: very_large },
    ],
    require: &[
      "measured:graham_scan", "measured:gift_wrapping", "measured:PolygonConvex::locate", "measured:PolygonConvex::random", "measured:TriangleView::locate",
      "measured:Polygon::locate", "measured:melkman", "measured:Polygon::validate", "measured:segment_intersections", "measured:triangulate",
      "measured:earclip_hashed", "measured:two_opt_moves", "located Inside", "located Outside", "located OnBoundary", "very large hull", "very large polygon hull", "very large random convex", "very large polygon", "very large convex location", "very large hashed triangulation", "very large intersection set",
    ],
  })
}
