use rgeometry::data::polygon::CursorIter;
use rgeometry::data::{Cursor, IndexEdge, Point, PointId, Polygon};
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::rng::Rg;
use rgmon::sc::Sc;
use rgmon::*;
use std::collections::VecDeque;
use std::ops::Bound::*;

/// Walks a boundary iterator from both ends in a random order against a deque.
fn walk<S: Sc>(ctx: &mut Ctx, r: &mut Rg, mut it: CursorIter<'_, S>, want: Vec<PointId>, what: &dyn Fn() -> String) -> Res {
  let mut dq: VecDeque<PointId> = want.into();
  let bias = r.below(4);
  let mut log = String::new();
  let total = dq.len();
  for step in 0..total + 3 {
    let (a, b) = it.size_hint();
    ck!(it.len() == dq.len() && a == dq.len() && b == Some(dq.len()), "{} after {:?}: len {} and size_hint {:?}, {} vertices remain", what(), log, it.len(), (a, b), dq.len());
    ctx.eval();
    if step == total / 2 {
      // a clone continues on its own
      let c = it.clone();
      let rest: Vec<PointId> = c.take(total + 5).map(|c| c.point_id()).collect();
      ck!(rest == dq.iter().copied().collect::<Vec<_>>(), "{} after {:?}: a clone yields {:?}, expected {:?}", what(), log, rest, dq);
      let c = it.clone();
      let mut rest: Vec<PointId> = c.rev().take(total + 5).map(|c| c.point_id()).collect();
      rest.reverse();
      ck!(rest == dq.iter().copied().collect::<Vec<_>>(), "{} after {:?}: reversed clone yields {:?}, expected {:?}", what(), log, rest, dq);
    }
    let back = match bias { 0 => false, 1 => true, _ => r.chance(1, 2) };
    log.push(if back { 'b' } else { 'f' });
    let (got, exp) = if back { (it.next_back(), dq.pop_back()) } else { (it.next(), dq.pop_front()) };
    ctx.count(if back { "step_back" } else { "step_front" });
    ck!(got.map(|c| c.point_id()) == exp, "{} after {:?}: yields {:?}, expected {:?}", what(), log, got.map(|c| c.point_id()), exp);
    if exp.is_none() { ctx.count("past_the_end") }
  }
  Ok(())
}
fn same<S: Sc>(a: Cursor<'_, S>, b: Cursor<'_, S>) -> bool {
  a == b && a.point_id() == b.point_id() && std::ptr::eq(a.point(), b.point())
}
fn check<S: Sc>(ctx: &mut Ctx, r: &mut Rg, p: &Polygon<S>, geometric: bool) -> Res {
  let ids = p.boundary_slice().to_vec();
  let n = ids.len();
  let pts: Vec<Point<S>> = boundary(p);
  let what = || format!("polygon {} ids {:?}", show(&boundary(p)), ids);
  // identifiers
  let store: Vec<&Point<S>> = p.iter().collect();
  ck!(store.len() == n, "{}: {} points stored", what(), store.len());
  let mut sorted = ids.clone();
  sorted.sort();
  ck!(sorted.windows(2).all(|w| w[0] < w[1]), "{}: identifier twice on the boundary", what());
  for (k, &id) in ids.iter().enumerate() {
    let c = p.cursor(id);
    ck!(c.point_id() == id, "{}: cursor({:?}) has identifier {:?}", what(), id, c.point_id());
    ck!(std::ptr::eq(c.point(), p.point(id)) && std::ptr::eq(p.point(id), store[id.usize()]), "{}: cursor, point and storage of {:?} disagree", what(), id);
    ck!(c.next().point_id() == ids[(k + 1) % n] && c.prev().point_id() == ids[(k + n - 1) % n], "{}: neighbours of {:?} are {:?} and {:?}", what(), id, c.prev().point_id(), c.next().point_id());
    ck!(same(c.next().prev(), c) && same(c.prev().next(), c), "{}: next and previous are not inverse at {:?}", what(), id);
    let mut m = c;
    m.move_next();
    ck!(same(m, c.next()), "{}: move_next at {:?}", what(), id);
    m.move_prev();
    m.move_prev();
    ck!(same(m, c.prev()), "{}: move_prev at {:?}", what(), id);
    ctx.eval();
  }
  // whole boundary
  walk(ctx, r, p.iter_boundary(), ids.clone(), &|| format!("iter_boundary of {}", what()))?;
  let edges: Vec<_> = p.iter_boundary_edges().take(n + 3).collect();
  ck!(edges.len() == n, "{}: {} edges", what(), edges.len());
  for k in 0..n {
    ck!(std::ptr::eq(edges[k].src, p.point(ids[k])) && std::ptr::eq(edges[k].dst, p.point(ids[(k + 1) % n])), "{}: edge {} is {:?}", what(), k, edges[k]);
  }
  if n < 200 || r.chance(1, 16) {
    common::iter_protocol_back(ctx, r, &format!("iter_boundary of {}", what()), &|| p.iter_boundary(), &|c| c.point_id(), &ids)?;
    let want: Vec<(*const Point<S>, *const Point<S>)> = (0..n).map(|k| (p.point(ids[k]) as *const _, p.point(ids[(k + 1) % n]) as *const _)).collect();
    common::iter_protocol(ctx, r, &format!("iter_boundary_edges of {}", what()), &|| p.iter_boundary_edges(), &|e| (e.src as *const _, e.dst as *const _), &want)?;
    let want: Vec<*const Point<S>> = store.iter().map(|q| *q as *const _).collect();
    common::iter_protocol(ctx, r, &format!("iter of {}", what()), &|| p.iter(), &|q| q as *const _, &want)?;
  }
  // ranges
  for _ in 0..6 {
    let i = r.below(n);
    let j = match r.below(4) { 0 => i, 1 => (i + 1) % n, 2 => (i + n - 1) % n, _ => r.below(n) };
    let (a, b) = (p.cursor(ids[i]), p.cursor(ids[j]));
    let run = |m: usize| -> Vec<PointId> { (0..m).map(|k| ids[(i + k) % n]).collect() };
    let d = (j + n - i) % n;
    let from = format!("from {:?} to", ids[i]);
    walk(ctx, r, a.to(Included(b)), run(d + 1), &|| format!("range {} included {:?} of {}", from, ids[j], what()))?;
    walk(ctx, r, a.to(Excluded(b)), run(d), &|| format!("range {} excluded {:?} of {}", from, ids[j], what()))?;
    walk(ctx, r, a.to(Unbounded), run(n), &|| format!("range {} unbounded of {}", from, what()))?;
    if n < 200 {
      let w = format!("range {} position {} of {}", from, j, what());
      common::iter_protocol_back(ctx, r, &w, &|| a.to(Included(b)), &|c| c.point_id(), &run(d + 1))?;
      common::iter_protocol_back(ctx, r, &w, &|| a.to(Excluded(b)), &|c| c.point_id(), &run(d))?;
      common::iter_protocol_back(ctx, r, &w, &|| a.to(Unbounded), &|c| c.point_id(), &run(n))?;
    }
    if d == 0 { ctx.count("empty_range") }
    if i + d >= n { ctx.count("wrapping_range") }
  }
  // directed edges
  for k in 0..n {
    let (a, b) = (ids[k], ids[(k + 1) % n]);
    if n < 3 { break }
    for e in [IndexEdge::new(a, b), IndexEdge::new(b, a)] {
      let d = p.direct(e);
      ctx.eval();
      ck!(d.src == a && d.dst == b, "{}: edge {:?} directed as {:?}", what(), e, d);
      ck!(IndexEdge::from(d) == e, "{}: directed edge {:?} does not lead back", what(), d);
    }
    if a > b { ctx.count("edge_against_numbering") }
  }
  if geometric {
    with_ex!(exact(&pts), q => {
      for (k, &id) in ids.iter().enumerate() {
        let c = p.cursor(id);
        let (want, got) = (is_ear(q, k), c.is_ear());
        ctx.eval();
        ctx.count(if want { "ear" } else { "not_ear" });
        if n == 3 { ctx.count("triangle_ear") }
        ck!(want == got, "{}: is_ear of vertex {:?} (position {}) is {}, exactly {}", what(), id, k, got, want);
        let o = common::ori(orient(&q[(k + n - 1) % n], &q[k], &q[(k + 1) % n]));
        ck!(c.orientation() == o && c.is_colinear() == o.is_colinear(), "{}: turn at {:?} is {:?}, exactly {:?}", what(), id, c.orientation(), o);
      }
      Ok::<(), String>(())
    })?;
  }
  Ok(())
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let p: Polygon<S> = any_poly(r, 24);
  let b = boundary(&p);
  ctx.sample(|| show(&b));
  ctx.nontrivial((key(&b), format!("{:?}", p.boundary_slice())));
  check(ctx, r, &p, true)
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
/// Polygons that went through other operations.
fn derived(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = 100;
  let n = 3 + r.below(14);
  match r.below(5) {
    0 => {
      let p = rgeometry::data::PolygonConvex::<i32>::random(n, r);
      ctx.count("random convex");
      check(ctx, r, p.polygon(), true)
    }
    1 => {
      let v = point_set(r, n, lim);
      let Some((pts, _)) = place::<i64>(r, &v, &[], lim) else { return Ok(()) };
      let Ok(p) = rgeometry::algorithms::convex_hull(pts) else { return Ok(()) };
      ctx.count("hull");
      check(ctx, r, p.polygon(), true)
    }
    2 => {
      // cast and mapped
      let Some(p) = tangled::<i32>(r, n, lim) else { return Ok(()) };
      let q: Polygon<i64> = p.clone().cast();
      ctx.count("cast");
      check(ctx, r, &q, true)?;
      let f = p.float();
      check(ctx, r, &f, true)
    }
    3 => {
      let v = simple_poly(r, n, lim);
      let pts = Emb::id().all::<i64>(&v).unwrap();
      let (p, _) = build(r, &pts);
      let h = rgeometry::algorithms::convex_hull::melkman::convex_hull(&p);
      ctx.count("melkman");
      check(ctx, r, h.polygon(), true)
    }
    _ => {
      // reversed or rejoined through positions is private; a polygon clockwise
      // and unchecked still has a boundary
      let v = simple_poly(r, n, lim);
      let mut pts = Emb::id().all::<i64>(&v).unwrap();
      pts.reverse();
      let mut p = rgmon::past::seasoned(r, pts);
      check(ctx, r, &p, false)?;
      ck!(p.ensure_ccw().is_ok(), "ensure_ccw fails on a clockwise simple polygon");
      ctx.count("ensured_ccw");
      check(ctx, r, &p, true)?;
      ck!(p.validate().is_ok(), "polygon invalid after ensure_ccw");
      Ok(())
    }
  }
}
/// Hundreds of vertices, in simple polygons.
fn big<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 60, 600);
  let Some(p) = big_poly::<S>(r, n) else { return Ok(()) };
  ctx.nontrivial(key(&boundary(&p)));
  ctx.count("big");
  ctx.max("vertices", p.boundary_slice().len() as f64);
  check(ctx, r, &p, true)
}
fn fam_big(ctx: &mut Ctx) -> Res {
  fast_types!(ctx, big)
}
/// One and two vertices, and long rings.
fn sizes(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = match r.below(4) { 0 => 1, 1 => 2, 2 => 3, _ if r.chance(1, 8) => { ctx.count("huge"); huge_n(r) } _ => big_n(r, 50, 3000) };
  let v: Vec<Point<i32>> = (0..n as i32).map(|i| Point::new([i, i % 97 * (i % 89)])).collect();
  ctx.count(if n < 3 { "tiny" } else { "sizes" });
  ctx.nontrivial(n);
  let p = rgmon::past::seasoned(r, v);
  check(ctx, r, &p, false)
}
/// The same boundary walked by position, forwards n times.
fn laps<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let p: Polygon<S> = any_poly(r, 30);
  let ids = p.boundary_slice().to_vec();
  let n = ids.len();
  ctx.nontrivial((key(&boundary(&p)), 0));
  let k = r.below(n);
  let mut c = p.cursor(ids[k]);
  let mut pos = k;
  for s in 0..4 * n {
    if r.chance(2, 3) { c.move_next(); pos = (pos + 1) % n } else { c.move_prev(); pos = (pos + n - 1) % n }
    ctx.eval();
    ck!(c.point_id() == ids[pos], "step {} of a walk over {:?}: at {:?}, expected {:?}", s, ids, c.point_id(), ids[pos]);
    ck!(c == p.cursor(ids[pos]), "cursor at {:?} differs from the one by identifier", ids[pos]);
  }
  ctx.count("laps");
  Ok(())
}
fn fam_laps(ctx: &mut Ctx) -> Res {
  all_types!(ctx, laps)
}
fn empty(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let p: Polygon<i64> = Polygon::new_unchecked(vec![]);
  walk(ctx, r, p.iter_boundary(), vec![], &|| "iter_boundary of the empty polygon".into())?;
  ck!(p.iter_boundary_edges().next().is_none(), "an edge of the empty polygon");
  common::iter_protocol_back(ctx, r, "iter_boundary of the empty polygon", &|| p.iter_boundary(), &|c| c.point_id(), &[])?;
  ck!(p.iter_boundary_edges().count() == 0 && p.iter_boundary_edges().nth(1).is_none() && p.iter_boundary_edges().last().is_none(), "an edge of the empty polygon");
  ck!(p.iter().next().is_none(), "a point of the empty polygon");
  ctx.count("empty_polygon");
  Ok(())
}
fn main() {
  engine::run_main(Property {
    id: "C28",
    rule: "a case is non-trivial and distinct by its polygon and vertex numbering",
    assumptions: &["ears are judged on simple counter-clockwise polygons"],
    families: vec![
      Family { name: "random", quick: 45000, thorough: 900000, f: fam_random },
      Family { name: "derived", quick: 18000, thorough: 300000, f: derived },
      Family { name: "sizes", quick: 900, thorough: 5000, f: sizes },
      Family { name: "laps", quick: 12000, thorough: 200000, f: fam_laps },
      Family { name: "big", quick: 300, thorough: 5000, f: fam_big },
      Family { name: "empty", quick: 4, thorough: 40, f: empty },
    ],
    require: &["step_back", "step_front", "past_the_end", "empty_range", "wrapping_range", "edge_against_numbering", "ear", "not_ear", "triangle_ear", "random convex", "hull", "cast", "melkman", "ensured_ccw", "tiny", "sizes", "huge", "big", "laps", "empty_polygon", "iterator_protocol", "iterator_protocol_back"],
  })
}
