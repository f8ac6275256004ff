use rgeometry::algorithms::triangulation::earclip::{earclip, triangulate_list};
use rgeometry::data::{Point, PointId, Polygon};
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::rng::Hostile;
use rgmon::sc::Sc;
use rgmon::tri::*;
use rgmon::*;

fn both<S: Sc>(ctx: &mut Ctx, p: &Polygon<S>, rounds: usize) -> Res {
  let r = &mut ctx.rng.fork();
  let pts = boundary(p);
  let ids = p.boundary_slice().to_vec();
  let t = collect(earclip(p), pts.len())?;
  judge(ctx, &pts, &ids, &t, "earclip")?;
  // the other ways of consuming the triangles, when the choice repeats
  if pts.len() < 64 && r.chance(1, 3) && collect(earclip(p), pts.len())? == t {
    common::iter_protocol(ctx, r, &format!("earclip of {}", show(&pts)), &|| earclip(p), &|t| t, &t)?;
  }
  // as cursors, which also know their corner of the polygon
  let mut cs = vec![];
  let mut it = p.triangulate();
  while let Some((a, b, c)) = it.next() {
    for q in [a, b, c] {
      ck!(p.point(q.point_id()) == q.point() && p.cursor(q.point_id()) == q, "triangulate of {}: a cursor at {:?} is not the one of its vertex", show(&pts), q.point_id());
    }
    cs.push((a.point_id(), b.point_id(), c.point_id()));
    ck!(cs.len() <= pts.len(), "triangulate of {} yields more than {} triangles", show(&pts), pts.len());
  }
  ck!(it.next().is_none(), "triangulate of {} yields another triangle after the end", show(&pts));
  drop(it);
  judge(ctx, &pts, &ids, &cs, "triangulate")?;
  if pts.len() < 64 && r.chance(1, 6) {
    let ids = || p.triangulate().map(|(a, b, c)| (a.point_id(), b.point_id(), c.point_id()));
    if collect(ids(), pts.len())? == cs {
      common::iter_protocol(ctx, r, &format!("triangulate of {}", show(&pts)), &|| ids(), &|t| t, &cs)?;
    }
  }
  let store: Vec<Point<S>> = p.iter().cloned().collect();
  for _ in 0..rounds {
    let h = Hostile::pick(r);
    let name = h.name();
    ctx.count(&format!("stream {}", name));
    let t = collect(triangulate_list(&store, &ids, h), pts.len())?;
    judge(ctx, &pts, &ids, &t, &format!("triangulate_list ({} stream)", name))?;
  }
  Ok(())
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = if r.chance(1, 8) { 20 + r.below(40) } else { 3 + r.below(16) };
  let Some(p) = subject::<S>(ctx, r, n) else { return Ok(()) };
  let pts = boundary(&p);
  ctx.sample(|| show(&pts));
  ctx.nontrivial(key(&pts));
  both(ctx, &p, 1)
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
/// Only part of a point list belongs to the polygon, in any numbering.
fn subset<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let n = 3 + r.below(12);
  let v = simple_poly(r, n, lim);
  let extra: Vec<V> = (0..if r.chance(1, 40) { 100 + r.below(3000) } else { r.below(8) }).map(|_| query(r, &v, lim)).collect();
  let Some((pts, ex)) = place::<S>(r, &v, &extra, lim) else { return Ok(()) };
  // scatter the boundary over a longer list
  let m = pts.len() + ex.len();
  let mut slots: Vec<usize> = (0..m).collect();
  r.shuffle(&mut slots);
  let mut store: Vec<Option<Point<S>>> = vec![None; m];
  let proxy = Polygon::new_unchecked((0..m).map(|i| Point::new([i as i32, 0])).collect::<Vec<Point<i32>>>());
  let all: Vec<PointId> = proxy.boundary_slice().to_vec();
  let mut order = vec![];
  for (i, p) in pts.iter().enumerate() { store[slots[i]] = Some(p.clone()); order.push(all[slots[i]]) }
  for (i, p) in ex.iter().enumerate() { store[slots[pts.len() + i]] = Some(p.clone()) }
  let store: Vec<Point<S>> = store.into_iter().map(|p| p.unwrap()).collect();
  ctx.nontrivial((key(&store), slots));
  ctx.count("subset");
  ctx.max("list length", m as f64);
  let h = Hostile::pick(r);
  let t = collect(triangulate_list(&store, &order, h), pts.len())?;
  judge(ctx, &pts, &order, &t, "triangulate_list on part of a list")
}
fn fam_subset(ctx: &mut Ctx) -> Res {
  all_types!(ctx, subset)
}
/// Small lattice polygons; all rotations, many streams.
fn lattice(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for _ in 0..400 {
    let w = r.range(1, 3);
    let mut g = grid(w);
    r.shuffle(&mut g);
    let n = 3 + r.below(7.min(g.len() - 2));
    let mut v = g[..n].to_vec();
    let x = x128(&v);
    if !is_simple(&x) { continue }
    if area2(&x) < 0 { v.reverse() }
    ctx.count("lattice");
    ctx.nontrivial(v.clone());
    let pts = Emb::id().all::<i64>(&v).unwrap();
    for k in 0..n {
      let mut q = pts.clone();
      q.rotate_left(k);
      let (p, _) = build(r, &q);
      both(ctx, &p, 2)?;
    }
    return Ok(());
  }
  Ok(())
}
fn raw<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for _ in 0..6 {
    let n = 3 + r.below(3);
    let mut pts = raw_points::<S>(r, n);
    let ok = with_ex!(exact(&pts), e => {
      let ok = is_simple(e);
      if ok && sgn(&area2(e)) < 0 { pts.reverse() }
      ok
    });
    if !ok { continue }
    ctx.nontrivial(key(&pts));
    ctx.count("raw");
    let (p, _) = build(r, &pts);
    both(ctx, &p, 1)?;
  }
  Ok(())
}
fn fam_raw(ctx: &mut Ctx) -> Res {
  all_types!(ctx, raw)
}
fn large<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 60, if ctx.tier == Tier::Quick { 800 } else { 2000 });
  let v = big_shape(r, n);
  let Some(pts) = Emb::id().all::<S>(&v) else { return Ok(()) };
  ctx.max("vertices", pts.len() as f64);
  ctx.nontrivial(key(&pts));
  if pts.len() >= 60 { ctx.count("large") }
  let (p, _) = build(r, &pts);
  both(ctx, &p, 1)
}
fn fam_large(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, large, [i32, i64, f64])
}
/// More vertices than the quadratic algorithm likes, and point lists longer
/// than sixteen bits count.
fn huge<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  if r.chance(1, 2) {
    let n = 3 + r.below(40);
    let v = big_simple(r, n.max(12));
    let m = huge_n(r);
    let Some(pts) = Emb::id().all::<S>(&v) else { return Ok(()) };
    // the polygon sits anywhere in the list, often at its end
    let mut slots: Vec<usize> = if r.chance(1, 2) { (m - pts.len()..m).collect() } else { (0..pts.len()).map(|_| r.below(m)).collect() };
    slots.sort();
    slots.dedup();
    if slots.len() < pts.len() { return Ok(()) }
    r.shuffle(&mut slots);
    let mut store: Vec<Point<S>> = vec![pts[0].clone(); m];
    let proxy = Polygon::new_unchecked(vec![Point::new([0i8, 0]); m]);
    let ids = proxy.boundary_slice();
    let order: Vec<PointId> = slots.iter().map(|&s| ids[s]).collect();
    for (p, s) in pts.iter().zip(&slots) { store[*s] = p.clone() }
    ctx.nontrivial((key(&pts), slots));
    ctx.count("huge_list");
    ctx.max("list length", m as f64);
    let h = Hostile::pick(r);
    let t = collect(triangulate_list(&store, &order, h), pts.len())?;
    return judge(ctx, &pts, &order, &t, "triangulate_list on part of a huge list");
  }
  let n = big_n(r, 1500, if ctx.tier == Tier::Quick { 4500 } else { 9000 });
  let v = huge_simple(r, n);
  let Some(pts) = Emb::id().all::<S>(&v) else { return Ok(()) };
  ctx.nontrivial(key(&pts));
  ctx.max("vertices", pts.len() as f64);
  ctx.count("huge");
  let p = build_huge(r, &pts);
  let ids = p.boundary_slice().to_vec();
  let t = collect(earclip(&p), pts.len())?;
  judge(ctx, &boundary(&p), &ids, &t, "earclip")
}
fn fam_huge(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, huge, [i32, i64, isize])
}
fn main() {
  engine::run_main(Property {
    id: "C16",
    rule: "a case is non-trivial and distinct by its polygon (points in boundary order)",
    assumptions: &["float coordinates stay where intermediate products neither overflow nor underflow"],
    families: vec![
      Family { name: "random", quick: 30000, thorough: 1500000, f: fam_random },
      Family { name: "subset", quick: 9000, thorough: 400000, f: fam_subset },
      Family { name: "lattice", quick: 3000, thorough: 200000, f: lattice },
      Family { name: "raw", quick: 7500, thorough: 300000, f: fam_raw },
      Family { name: "large", quick: 300, thorough: 10000, f: fam_large },
      Family { name: "huge", quick: 24, thorough: 500, f: fam_huge },
    ],
    require: &["iterator_protocol", "triangles", "tangled", "flat_vertices", "via NewReversed", "stream zero", "stream low", "stream high", "subset", "lattice", "raw", "large", "huge", "huge_list"],
  })
}
