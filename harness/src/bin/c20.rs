use num_traits::Zero;
use rgeometry::algorithms::polygonization::resolve_self_intersections;
use rgeometry::data::{Point, PointId, Polygon};
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::rng::{Hostile, Rg};
use rgmon::sc::Sc;
use rgmon::*;

/// Lower and upper bound of the perimeter, scaled.
fn perimeter<N: Nm>(p: &[P<N>]) -> (BigInt, BigInt) {
  let (mut lo, mut hi) = (BigInt::zero(), BigInt::zero());
  for i in 0..p.len() {
    let d = dist2(&p[i], &p[(i + 1) % p.len()]).big() << 240usize;
    let s = d.sqrt();
    if &s * &s == d { hi += &s } else { hi += &s + BigInt::from(1) }
    lo += s;
  }
  (lo, hi)
}
fn run<S: Sc>(ctx: &mut Ctx, p: &Polygon<S>, h: Hostile) -> Res {
  let name = h.name();
  ctx.count(&format!("stream {}", name));
  ctx.eval();
  let mut h = h;
  let r = &mut ctx.rng.fork();
  let before: Vec<Point<S>> = p.iter().cloned().collect();
  let chain = boundary(p);
  let ids: Vec<PointId> = p.boundary_slice().to_vec();
  let mut q = p.clone();
  if r.chance(1, 2) {
    rgmon::past::warm(r, &q);
  }
  let res = resolve_self_intersections(&mut q, &mut h);
  let after: Vec<Point<S>> = q.iter().cloned().collect();
  let fin = boundary(&q);
  let fids: Vec<PointId> = q.boundary_slice().to_vec();
  let n = chain.len();
  let what = || format!("resolve_self_intersections of {} (ids {:?}, {} stream) -> {} (ids {:?})", show(&chain), ids, name, show(&fin), fids);
  let mut all = chain.clone();
  all.extend(fin.iter().cloned());
  with_ex!(exact(&all), e => {
    let (c, f) = e.split_at(n);
    if all_colinear(c) {
      ck!(res.is_err(), "{}: all points on one line but no error", what());
      ctx.count("colinear");
      return Ok(());
    }
    ck!(res.is_ok(), "{}: failed with {:?}", what(), res);
    ck!(before == after, "{}: a vertex identifier names another point", what());
    ck!(f.len() == n, "{}: boundary has {} vertices", what(), f.len());
    let (mut x, mut y) = (ids.clone(), fids.clone());
    x.sort();
    y.sort();
    ck!(x == y, "{}: identifiers on the boundary differ", what());
    for &id in &fids {
      ck!(q.cursor(id).point_id() == id && q.cursor(id).point() == q.point(id), "{}: cursor({:?}) is elsewhere", what(), id);
    }
    ck!(is_simple(f), "{}: not simple", what());
    ck!(sgn(&area2(f)) > 0, "{}: not counter-clockwise", what());
    ck!(q.orientation().is_ccw(), "{}: has orientation {:?}", what(), q.orientation());
    let (_, hi) = perimeter(c);
    let (lo, _) = perimeter(f);
    ck!(lo <= hi, "{}: perimeter grew", what());
    if is_simple(c) {
      let same = is_rotation(&ids, &fids) || is_rotation(&ids, &reversed(&fids));
      ck!(same, "{}: a simple chain was reordered", what());
      ctx.count(if sgn(&area2(c)) > 0 { "simple_ccw" } else { "simple_cw" });
    } else {
      ctx.count("tangled");
    }
    ctx.max("vertices", n as f64);
    Ok(())
  })
}
/// Renumbers through the code under test: untangle once, then permute the
/// coordinates, so that boundary order and numbering are unrelated.
fn scramble<S: Sc>(r: &mut Rg, pts: &[Point<S>]) -> Polygon<S> {
  let mut p = rgmon::past::seasoned(r, pts.to_vec());
  let mut g = r.fork();
  let _ = resolve_self_intersections(&mut p, &mut g);
  let mut v: Vec<Point<S>> = p.iter().cloned().collect();
  r.shuffle(&mut v);
  for (a, b) in p.iter_mut().zip(v) { *a = b }
  p
}
fn subject<S: Sc>(ctx: &mut Ctx, r: &mut Rg, pts: Vec<Point<S>>) -> Res {
  ctx.nontrivial(key(&pts));
  let p = if r.chance(1, 3) && with_ex!(exact(&pts), e => !all_colinear(e)) {
    ctx.count("scrambled");
    scramble(r, &pts)
  } else {
    rgmon::past::seasoned(r, pts)
  };
  let h = Hostile::pick(r);
  run(ctx, &p, h)
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let n = if r.chance(1, 12) { 15 + r.below(15) } else { 3 + r.below(10) };
  let v = point_set(r, n, lim);
  let v = distinct(v, r);
  if v.len() < 3 { return Ok(()) }
  let Some((pts, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
  ctx.sample(|| show(&pts));
  subject(ctx, r, pts)
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
fn simple<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let n = 3 + r.below(20);
  let mut v = simple_poly(r, n, lim);
  if r.chance(1, 2) { v.reverse() }
  // sometimes exchange two vertices: an almost simple chain
  if r.chance(1, 2) { let (i, j) = (r.below(v.len()), r.below(v.len())); v.swap(i, j) }
  let Some((pts, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
  ctx.nontrivial(key(&pts));
  let h = Hostile::pick(r);
  run(ctx, &rgmon::past::seasoned(r, pts), h)
}
fn fam_simple(ctx: &mut Ctx) -> Res {
  all_types!(ctx, simple)
}
fn small<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for _ in 0..3 {
    let (w, hgt) = (r.range(1, 5), r.range(1, 3));
    let mut g: Vec<V> = vec![];
    for x in 0..=w { for y in 0..=hgt { g.push([x, y]) } }
    r.shuffle(&mut g);
    let n = 3 + r.below(12);
    g.truncate(n);
    if r.chance(1, 3) { g.sort() }
    let Some((pts, _)) = place::<S>(r, &g, &[], 5) else { return Ok(()) };
    subject(ctx, r, pts)?;
  }
  ctx.count("small");
  Ok(())
}
fn fam_small(ctx: &mut Ctx) -> Res {
  all_types!(ctx, small)
}
/// Every order of small lattice subsets.
fn orders(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let mut g = grid(2);
  r.shuffle(&mut g);
  let n = 3 + r.below(3);
  let mut perm: Vec<usize> = (0..n).collect();
  let s = g[..n].to_vec();
  loop {
    let v: Vec<V> = perm.iter().map(|&i| s[i]).collect();
    let pts = Emb::id().all::<i64>(&v).unwrap();
    let h = Hostile::pick(r);
    run(ctx, &rgmon::past::seasoned(r, pts), h)?;
    // next permutation
    let Some(i) = (0..n - 1).rev().find(|&i| perm[i] < perm[i + 1]) else { break };
    let j = (i + 1..n).rev().find(|&j| perm[j] > perm[i]).unwrap();
    perm.swap(i, j);
    perm[i + 1..].reverse();
  }
  ctx.nontrivial(s);
  ctx.count("orders");
  Ok(())
}
fn large<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = 40 + r.below(40);
  let lim = if S::MAX == 127 { 127 } else { *r.pick(&[5, 12, 1 << 20]) };
  let v = point_set(r, n, lim);
  let v = distinct(v, r);
  if v.len() < 3 { return Ok(()) }
  let Some((pts, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
  ctx.count("large");
  subject(ctx, r, pts)
}
fn fam_large(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, large, [i8, i64, f64])
}
/// Long chains with few crossings, and chains that stay on a line for long.
fn big<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 60, if ctx.tier == Tier::Quick { 350 } else { 900 });
  let mut v = if r.chance(1, 4) {
    let mut v: Vec<V> = (0..n as i64).map(|i| [i, 0]).collect();
    for _ in 0..1 + r.below(3) { let k = match r.below(3) { 0 => n - 1, 1 => 0, _ => r.below(n) }; v[k][1] = r.range(-1, 1) }
    v
  } else {
    big_simple(r, n)
  };
  let m = v.len();
  for _ in 0..r.below(3) {
    let (a, b) = (r.below(m), r.below(m));
    let (a, b) = (a.min(b), a.max(b).min(a.min(b) + 40));
    match r.below(3) {
      0 => v[a..=b].reverse(),
      1 => v.swap(a, b),
      _ => {}
    }
  }
  if r.chance(1, 2) { v.reverse() }
  let Some((pts, _)) = place_big::<S>(r, &v, &[]) else { return Ok(()) };
  ctx.count("big");
  ctx.nontrivial(key(&pts));
  let h = Hostile::pick(r);
  run(ctx, &rgmon::past::seasoned(r, pts), h)
}
fn fam_big(ctx: &mut Ctx) -> Res {
  fast_types!(ctx, big)
}
fn main() {
  engine::run_main(Property {
    id: "C20",
    rule: "a case is non-trivial and distinct by its chain",
    assumptions: &["float coordinates stay where intermediate products neither overflow nor underflow", "perimeters are compared by 120-bit interval arithmetic, so growth below that is not seen"],
    families: vec![
      Family { name: "random", quick: 64000, thorough: 1200000, f: fam_random },
      Family { name: "simple", quick: 40000, thorough: 700000, f: fam_simple },
      Family { name: "small", quick: 8000, thorough: 500000, f: fam_small },
      Family { name: "orders", quick: 300, thorough: 20000, f: orders },
      Family { name: "large", quick: 200, thorough: 3000, f: fam_large },
      Family { name: "big", quick: 480, thorough: 5000, f: fam_big },
    ],
    require: &["tangled", "simple_ccw", "simple_cw", "colinear", "scrambled", "small", "orders", "large", "big", "stream zero", "stream low", "stream high"],
  })
}
