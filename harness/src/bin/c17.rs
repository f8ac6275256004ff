use rgeometry::algorithms::triangulation::earclip::{earclip_hashed, triangulate_list_hashed};
use rgeometry::algorithms::zhash::ZHashable;
use rgeometry::data::{Point, Polygon};
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::rng::Hostile;
use rgmon::sc::{Kind, Sc};
use rgmon::tri::*;
use rgmon::*;

fn both<S: Sc + ZHashable>(ctx: &mut Ctx, p: &Polygon<S>, rounds: usize) -> Res {
  let r = &mut ctx.rng.fork();
  let pts = boundary(p);
  let ids = p.boundary_slice().to_vec();
  let t = collect(earclip_hashed(p), pts.len())?;
  judge(ctx, &pts, &ids, &t, "earclip_hashed")?;
  // the other ways of consuming the triangles, when the choice repeats
  if pts.len() < 64 && r.chance(1, 3) && collect(earclip_hashed(p), pts.len())? == t {
    common::iter_protocol(ctx, r, &format!("earclip_hashed of {}", show(&pts)), &|| earclip_hashed(p), &|t| t, &t)?;
  }
  let store: Vec<Point<S>> = p.iter().cloned().collect();
  for _ in 0..rounds {
    let h = Hostile::pick(r);
    let name = h.name();
    ctx.count(&format!("stream {}", name));
    let t = collect(triangulate_list_hashed(&store, &ids, h), pts.len())?;
    judge(ctx, &pts, &ids, &t, &format!("triangulate_list_hashed ({} stream)", name))?;
  }
  Ok(())
}
fn random<S: Sc + ZHashable>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = if r.chance(1, 8) { 20 + r.below(40) } else { 3 + r.below(16) };
  let Some(p) = subject::<S>(ctx, r, n) else { return Ok(()) };
  let pts = boundary(&p);
  ctx.sample(|| show(&pts));
  ctx.nontrivial(key(&pts));
  both(ctx, &p, 1)
}
fn fam_random(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, random, [i8, i64, f64])
}
/// Different magnitudes along the axes, and vertices far away that squeeze the
/// rest into few hash cells.
fn aspect<S: Sc + ZHashable>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = 3 + r.below(20);
  let lim: i64 = if S::MAX == 127 { 15 } else { 1000 };
  let v = simple_poly(r, n, lim);
  let (mut bx, mut by) = (BigInt::from(1), BigInt::from(1));
  let (mut dx, mut dy) = (BigInt::from(1), BigInt::from(1));
  let pow = |r: &mut rgmon::rng::Rg| -> BigInt {
    match S::KIND {
      Kind::Fixed => BigInt::from(1 + r.below((S::MAX / lim).min(1 << 52) as usize)) >> r.below(20),
      _ => BigInt::from(1) << r.below(100),
    }
  };
  for b in [&mut bx, &mut by] {
    if r.chance(2, 3) { *b = pow(r) }
    if *b <= BigInt::from(0) { *b = BigInt::from(1) }
  }
  if S::KIND == Kind::F64 {
    for d in [&mut dx, &mut dy] { if r.chance(1, 2) { *d = pow(r) } }
  }
  let mut pts = vec![];
  for q in &v {
    let c = |k: i64, b: &BigInt, d: &BigInt| S::from_rat(&BigRational::new(BigInt::from(k) * b, d.clone()));
    match (c(q[0], &bx, &dx), c(q[1], &by, &dy)) {
      (Some(x), Some(y)) => pts.push(Point::new([x, y])),
      _ => return Ok(()),
    }
  }
  // move one vertex far away if the polygon stays simple
  if r.chance(1, 2) {
    let k = r.below(pts.len());
    for _ in 0..6 {
      let mut q = pts.clone();
      for i in 0..2 {
        let z = match S::KIND {
          Kind::Fixed => S::from_i(if r.chance(1, 2) { S::MAX - r.range(0, 2) } else { S::MIN + r.range(0, 2) }),
          _ => S::from_rat(&BigRational::from_integer(BigInt::from(r.range(-3, 3)) << r.below(112))),
        };
        if r.chance(2, 3) { q[k].array[i] = z.unwrap() }
      }
      if with_ex!(exact(&q), e => is_simple(e) && sgn(&area2(e)) > 0) {
        pts = q;
        ctx.count("far_vertex");
        break;
      }
    }
  }
  ctx.nontrivial(key(&pts));
  ctx.count("aspect");
  let (p, _) = build(r, &pts);
  both(ctx, &p, 2)
}
fn fam_aspect(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, aspect, [i8, i64, f64])
}
fn subset<S: Sc + ZHashable>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let n = 3 + r.below(12);
  let v = simple_poly(r, n, lim);
  let extra: Vec<V> = (0..if r.chance(1, 40) { 100 + r.below(3000) } else { r.below(8) }).map(|_| query(r, &v, lim)).collect();
  let Some((pts, ex)) = place::<S>(r, &v, &extra, lim) else { return Ok(()) };
  let m = pts.len() + ex.len();
  let mut slots: Vec<usize> = (0..m).collect();
  r.shuffle(&mut slots);
  let proxy = Polygon::new_unchecked((0..m).map(|i| Point::new([i as i32, 0])).collect::<Vec<Point<i32>>>());
  let all = proxy.boundary_slice().to_vec();
  let mut store: Vec<Point<S>> = vec![pts[0].clone(); m];
  let mut order = vec![];
  for (i, p) in pts.iter().enumerate() { store[slots[i]] = p.clone(); order.push(all[slots[i]]) }
  for (i, p) in ex.iter().enumerate() { store[slots[pts.len() + i]] = p.clone() }
  ctx.nontrivial((key(&store), slots));
  ctx.count("subset");
  ctx.max("list length", m as f64);
  let h = Hostile::pick(r);
  let t = collect(triangulate_list_hashed(&store, &order, h), pts.len())?;
  judge(ctx, &pts, &order, &t, "triangulate_list_hashed on part of a list")
}
fn fam_subset(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, subset, [i8, i64, f64])
}
fn lattice_t<S: Sc + ZHashable>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for _ in 0..400 {
    let w = r.range(1, 3);
    let mut g = grid(w);
    r.shuffle(&mut g);
    let n = 3 + r.below(7.min(g.len() - 2));
    let mut v = g[..n].to_vec();
    let x = x128(&v);
    if !is_simple(&x) { continue }
    if area2(&x) < 0 { v.reverse() }
    ctx.count("lattice");
    ctx.nontrivial((S::NAME, v.clone()));
    let (pts, _) = place::<S>(r, &v, &[], w).unwrap();
    for k in 0..n {
      let mut q = pts.clone();
      q.rotate_left(k);
      let (p, _) = build(r, &q);
      both(ctx, &p, 2)?;
    }
    return Ok(());
  }
  Ok(())
}
fn lattice(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, lattice_t, [i8, i64, f64])
}
fn raw<S: Sc + ZHashable>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for _ in 0..8 {
    let n = 3 + r.below(4);
    let mut pts = raw_points::<S>(r, n);
    let ok = with_ex!(exact(&pts), e => {
      let ok = is_simple(e);
      if ok && sgn(&area2(e)) < 0 { pts.reverse() }
      ok
    });
    if !ok { continue }
    ctx.nontrivial(key(&pts));
    ctx.count("raw");
    let (p, _) = build(r, &pts);
    both(ctx, &p, 1)?;
  }
  Ok(())
}
fn fam_raw(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, raw, [i8, i64, f64])
}
fn large<S: Sc + ZHashable>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 60, if ctx.tier == Tier::Quick { 800 } else { 2000 });
  let v = if S::MAX == 127 { simple_poly(r, n, 127) } else { big_shape(r, n) };
  let Some(pts) = Emb::id().all::<S>(&v) else { return Ok(()) };
  ctx.max("vertices", pts.len() as f64);
  ctx.nontrivial(key(&pts));
  if pts.len() >= 60 { ctx.count("large") }
  let (p, _) = build(r, &pts);
  both(ctx, &p, 1)
}
fn fam_large(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, large, [i8, i64, f64])
}
/// Most vertices crowd together, outside of the triangles of the others.
fn crowd<S: Sc + ZHashable>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for _ in 0..6 {
    let n = big_n(r, 12, if ctx.tier == Tier::Quick { 600 } else { 1500 });
    let v = dense(r, n);
    let v = symmetry(r, &v);
    let x = x128(&v);
    if !is_simple(&x) { continue }
    let v = if area2(&x) < 0 { reversed(&v) } else { v };
    let Some((pts, _)) = place_big::<S>(r, &v, &[]) else { continue };
    ctx.max("vertices", pts.len() as f64);
    ctx.nontrivial(key(&pts));
    ctx.count("crowd");
    let (p, _) = build(r, &pts);
    return both(ctx, &p, 2);
  }
  Ok(())
}
fn fam_crowd(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, crowd, [i64, f64])
}
/// More vertices than sixteen bits count, evenly spread along a convex boundary.
fn huge<S: Sc + ZHashable>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = huge_n(r) + 2;
  let v = big_convex(r, n);
  let Some(pts) = Emb::id().all::<S>(&v) else { return Ok(()) };
  ctx.max("vertices", pts.len() as f64);
  ctx.nontrivial(v);
  ctx.count("huge");
  both(ctx, &build_huge(r, &pts), 0)
}
fn fam_huge(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, huge, [i64, f64])
}
fn main() {
  engine::run_main(Property {
    id: "C17",
    rule: "a case is non-trivial and distinct by its polygon (points in boundary order)",
    assumptions: &["float coordinates stay where intermediate products neither overflow nor underflow"],
    families: vec![
      Family { name: "random", quick: 120000, thorough: 1500000, f: fam_random },
      Family { name: "aspect", quick: 90000, thorough: 1000000, f: fam_aspect },
      Family { name: "subset", quick: 30000, thorough: 400000, f: fam_subset },
      Family { name: "lattice", quick: 2500, thorough: 200000, f: lattice },
      Family { name: "raw", quick: 30000, thorough: 300000, f: fam_raw },
      Family { name: "large", quick: 1200, thorough: 10000, f: fam_large },
      Family { name: "crowd", quick: 1500, thorough: 15000, f: fam_crowd },
      Family { name: "huge", quick: 4, thorough: 100, f: fam_huge },
    ],
    require: &["iterator_protocol", "triangles", "tangled", "flat_vertices", "via NewReversed", "stream zero", "stream low", "stream high", "aspect", "far_vertex", "subset", "lattice", "raw", "large", "crowd", "huge"],
  })
}
