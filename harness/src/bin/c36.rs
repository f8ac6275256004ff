use num_bigint::BigInt;
use num_traits::ToPrimitive;
use rgeometry::algorithms::convex_hull::{graham_scan, melkman};
use rgeometry::algorithms::polygonization::{new_monotone_polygon, new_star_polygon};
use rgeometry::data::*;
use rgmon::gen::*;
use rgmon::rng::Rg;
use rgmon::sc::{rpt, Kind, Sc};
use rgmon::*;
use std::cell::RefCell;

type R2 = [BigRational; 2];
/// Everything that can be seen of a polygon.
#[derive(Clone, PartialEq, Debug)]
struct View {
  /// points by identifier
  by_id: Vec<R2>,
  ring: Vec<PointId>,
}
fn look<S: Sc>(p: &Polygon<S>) -> Result<View, String> {
  let ring = p.boundary_slice().to_vec();
  let stored: Vec<R2> = p.iter().map(rpt).collect();
  let n = stored.len();
  ck!(ring.len() == n, "{} boundary vertices, {} stored points", ring.len(), n);
  let mut by_id: Vec<Option<R2>> = vec![None; n];
  for (k, c) in p.iter_boundary().enumerate() {
    let id = c.point_id();
    ck!(id == ring[k], "boundary vertex {} is {:?}, the slice has {:?}", k, id, ring[k]);
    ck!(id.usize() < n && by_id[id.usize()].is_none(), "identifier {:?} is invalid or repeated", id);
    ck!(rpt(c.point()) == rpt(p.point(id)), "cursor and identifier {:?} disagree about the point", id);
    ck!(p.cursor(id).point_id() == id && p.cursor(id) == c, "identifier {:?} leads to {:?}", id, p.cursor(id).point_id());
    ck!(p.cursor(id).next().point_id() == ring[(k + 1) % n] && p.cursor(id).prev().point_id() == ring[(k + n - 1) % n], "neighbours of {:?}", id);
    by_id[id.usize()] = Some(rpt(p.point(id)));
  }
  let by_id: Vec<R2> = by_id.into_iter().map(|v| v.unwrap()).collect();
  ck!(by_id == stored, "points listed by iter() are not in identifier order");
  Ok(View { by_id, ring })
}
/// `after` is `before` with f applied to every point.
fn same(before: &View, after: &View, what: &str, f: &dyn Fn(&R2) -> R2) -> Res {
  ck!(before.ring == after.ring, "{}: boundary {:?} became {:?}", what, before.ring, after.ring);
  for (k, (a, b)) in before.by_id.iter().zip(&after.by_id).enumerate() {
    let w = f(a);
    ck!(w == *b, "{}: vertex {} at ({}, {}) became ({}, {}), not ({}, {})", what, k, a[0], a[1], b[0], b[1], w[0], w[1]);
  }
  Ok(())
}

/// Polygons out of every producer.
fn source<S: Sc>(ctx: &mut Ctx, r: &mut Rg) -> Polygon<S> {
  let nmax = if r.chance(1, 20) { big_n(r, 30, 300) } else { 14 };
  let k = r.below(8);
  let made = match k {
    0..=2 => None,
    3 => {
      let lim = lim_for::<S>(r);
      let n = 4 + r.below(nmax);
      tangled::<S>(r, n, lim)
    }
    4 => {
      // any chain at all
      let n = r.below(6);
      let v = raw_points::<S>(r, n);
      Some(rgmon::past::seasoned(r, v))
    }
    5 => graham_scan::convex_hull(raw_points::<S>(r, nmax)).ok().map(Polygon::from),
    6 => {
      let p = raw_points::<S>(r, nmax);
      if r.chance(1, 2) {
        new_monotone_polygon(p, &Vector([S::from_constant(1), S::from_constant(0)])).ok()
      } else {
        let c = p[0].clone();
        new_star_polygon(p, &c).ok()
      }
    }
    _ => Some(Polygon::from(melkman::convex_hull(&any_poly::<S>(r, nmax)))),
  };
  let mut p = made.unwrap_or_else(|| any_poly::<S>(r, nmax));
  if nmax > 20 && matches!(S::KIND, Kind::Fixed | Kind::F64) && S::MAX > 1 << 20 {
    if let Some(q) = big_poly::<S>(r, nmax) { p = q; ctx.count("big") }
  }
  if r.chance(1, 4) {
    let _ = p.ensure_ccw();
  }
  if p.boundary_slice().windows(2).any(|w| w[1].usize() != w[0].usize() + 1) {
    ctx.count("boundary order differs from numbering");
  }
  ctx.count(&format!("source {}", k));
  if r.chance(1, 3) {
    rgmon::past::warm(r, &p);
  }
  p
}

/// Coordinates go through functions that remember what they were given.
fn mapping<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let p = source::<S>(ctx, r);
  let a = look(&p).map_err(|e| format!("{}: {}", S::NAME, e))?;
  let about = show(&boundary(&p));
  let tag = |e: String| format!("{} for {} with boundary {:?}", e, about, a.ring);
  let sorted = |mut v: Vec<BigRational>| {
    v.sort();
    v
  };
  let coords = sorted(a.by_id.iter().flatten().cloned().collect());

  // one type to another, through an injective function
  let log = RefCell::new(vec![]);
  let shift = BigRational::new(BigInt::from(r.range(-9, 9)), BigInt::from(7));
  let m = p.clone().map(|v: S| {
    log.borrow_mut().push(v.rat());
    v.rat() * BigRational::from_integer(BigInt::from(3)) + &shift
  });
  ctx.eval();
  same(&a, &look(&m).map_err(tag)?, "map", &|q| [0, 1].map(|i| &q[i] * BigRational::from_integer(BigInt::from(3)) + &shift)).map_err(tag)?;
  ck!(sorted(log.into_inner()) == coords, "map does not visit every coordinate once: {}", tag(String::new()));
  // identical type, swapping coordinates and negating nothing
  let log = RefCell::new(vec![]);
  let m = p.clone().map_points(|q| {
    log.borrow_mut().push(rpt(&q));
    let [x, y] = q.array;
    Point::new([y, x])
  });
  ctx.eval();
  same(&a, &look(&m).map_err(tag)?, "map_points", &|q| [q[1].clone(), q[0].clone()]).map_err(tag)?;
  let mut l = log.into_inner();
  let mut w = a.by_id.clone();
  l.sort();
  w.sort();
  ck!(l == w, "map_points does not visit every vertex once: {}", tag(String::new()));
  // edits in place
  let mut m = p.clone();
  let k = r.below(4);
  let mut seen = vec![];
  for (i, q) in m.iter_mut().enumerate() {
    seen.push(rpt(q));
    if i % 4 != k {
      q.array.swap(0, 1);
    }
  }
  ctx.eval();
  ck!(seen == a.by_id, "the mutable iterator shows {:?}: {}", seen, tag(String::new()));
  let b = look(&m).map_err(tag)?;
  ck!(b.ring == a.ring, "editing changed the boundary: {}", tag(String::new()));
  for (i, (x, y)) in a.by_id.iter().zip(&b.by_id).enumerate() {
    let w = if i % 4 != k { [x[1].clone(), x[0].clone()] } else { x.clone() };
    ck!(*y == w, "edited vertex {} is {:?}: {}", i, y, tag(String::new()));
  }
  // part of the iterator only, by steps
  if a.ring.len() < 200 {
    let n = a.ring.len();
    let (j, st, s, ways) = (r.below(n + 1), 1 + r.below(3), r.below(n + 1), r.below(8));
    let mut m = p.clone();
    let mut touched = vec![false; n];
    let mut it = m.iter_mut();
    let (lo, hi) = it.size_hint();
    ck!(lo <= n && hi.map_or(true, |h| h >= n), "size_hint {:?} of the mutable iterator: {}", (lo, hi), tag(String::new()));
    let mut mark = |i: usize| if let Some(t) = touched.get_mut(i) { *t = !*t };
    match ways {
      0 => { mark(j); if let Some(q) = it.nth(j) { q.array.swap(0, 1) }; if j < n { mark(j + 1); if let Some(q) = it.next() { q.array.swap(0, 1) } } }
      1 => { (s..n).step_by(st).for_each(&mut mark); it.skip(s).step_by(st).for_each(|q| q.array.swap(0, 1)) }
      2 => { if n > 0 { mark(n - 1) }; if let Some(q) = it.last() { q.array.swap(0, 1) } }
      3 => { it.nth(j); let left = n.saturating_sub(j + 1); let c = if j < n { it.count() } else { 0 }; ck!(c == left, "the mutable iterator counts {} after nth({}): {}", c, j, tag(String::new())) }
      4 => { (0..n).for_each(&mut mark); it.fold((), |_, q| q.array.swap(0, 1)) }
      5 => { let mut k = 0; let f = it.find(|_| { k += 1; k == s + 1 }); if let Some(q) = f { q.array.swap(0, 1) }; mark(s) }
      6 => { (0..n).for_each(&mut mark); let v: Vec<_> = it.collect(); v.into_iter().for_each(|q| q.array.swap(0, 1)) }
      _ => { let _ = it.try_for_each(|q| { q.array.swap(0, 1); if s == 0 { Err(()) } else { Ok(()) } }); if s == 0 { mark(0) } else { (0..n).for_each(&mut mark) } }
    }
    let b = look(&m).map_err(tag)?;
    ck!(b.ring == a.ring && (0..n).all(|i| if touched[i] { b.by_id[i] == [a.by_id[i][1].clone(), a.by_id[i][0].clone()] } else { b.by_id[i] == a.by_id[i] }), "edits by steps (way {}, nth {}, skip {}, step {}) touch others than {:?}: {}", ways, j, s, st, touched, tag(String::new()));
    ctx.count("edits by steps");
  }
  // part of the iterator only
  let mut m = p.clone();
  let take = r.below(a.ring.len() + 1);
  for q in m.iter_mut().take(take) {
    q.array.swap(0, 1);
  }
  let b = look(&m).map_err(tag)?;
  ck!(b.ring == a.ring && (0..a.ring.len()).all(|i| if i < take { b.by_id[i] == [a.by_id[i][1].clone(), a.by_id[i][0].clone()] } else { b.by_id[i] == a.by_id[i] }), "stopping after {} edits: {}", take, tag(String::new()));
  // the source is as it was
  ck!(look(&p)? == a, "the source changed: {}", tag(String::new()));
  // a copy is equal and independent
  let c = p.clone();
  ck!(look(&c)? == a, "the copy differs: {}", tag(String::new()));
  ctx.count(&format!("mapped over {}", S::NAME));
  ctx.nontrivial((about.clone(), a.ring.clone()));
  ctx.sample(|| format!("{} {:?}", about, a.ring));
  Ok(())
}
fn map(ctx: &mut Ctx) -> Res {
  all_types!(ctx, mapping)
}

/// Reordering between mappings.
fn histories<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let mut p = source::<S>(ctx, r);
  let mut a = look(&p)?;
  let mut trace = vec![];
  let about = show(&boundary(&p));
  for _ in 0..8 {
    let k = r.below(5);
    trace.push(k);
    let tag = |e: String| format!("{} after {:?} from {}", e, trace, about);
    if r.chance(1, 3) {
      rgmon::past::warm(r, &p);
    }
    ctx.eval();
    match k {
      0 => {
        p = p.map_points(|q| Point::new([q.array[1].clone(), q.array[0].clone()]));
        let b = look(&p).map_err(tag)?;
        same(&a, &b, "map_points", &|q| [q[1].clone(), q[0].clone()]).map_err(tag)?;
        a = b;
      }
      1 => {
        p = p.map(|v| v);
        let b = look(&p).map_err(tag)?;
        same(&a, &b, "map", &|q| q.clone()).map_err(tag)?;
      }
      2 => {
        for q in p.iter_mut() {
          q.array.swap(0, 1);
        }
        let b = look(&p).map_err(tag)?;
        same(&a, &b, "iter_mut", &|q| [q[1].clone(), q[0].clone()]).map_err(tag)?;
        a = b;
      }
      3 if a.ring.len() >= 3 => {
        // reversal keeps points with their identifiers
        let _ = p.ensure_ccw();
        let b = look(&p).map_err(tag)?;
        ck!(b.by_id == a.by_id, "ensure_ccw moved points: {}", tag(String::new()));
        if b.ring != a.ring {
          ctx.count("reversed in between");
        }
        a = b;
      }
      _ => {
        p = p.cast::<S>();
        let b = look(&p).map_err(tag)?;
        same(&a, &b, "cast", &|q| q.clone()).map_err(tag)?;
      }
    }
  }
  ctx.nontrivial((about, trace));
  Ok(())
}
fn history(ctx: &mut Ctx) -> Res {
  all_types!(ctx, histories)
}

/// Conversions between coordinate types.
fn cast_to<S: Sc + Into<U>, U: Sc>(ctx: &mut Ctx, r: &mut Rg) -> Res {
  let p = source::<S>(ctx, r);
  let a = look(&p)?;
  let b = look(&p.clone().cast::<U>())?;
  ctx.eval();
  same(&a, &b, &format!("cast {} to {}", S::NAME, U::NAME), &|q| q.clone()).map_err(|e| format!("{} for {}", e, show(&boundary(&p))))?;
  ctx.count(&format!("cast {} to {}", S::NAME, U::NAME));
  ctx.nontrivial((S::NAME, U::NAME, show(&boundary(&p))));
  Ok(())
}
fn float_of<S: Sc + Into<f64>>(ctx: &mut Ctx, r: &mut Rg) -> Res {
  let p = source::<S>(ctx, r);
  let a = look(&p)?;
  let about = show(&boundary(&p));
  let f = p.clone().float();
  ctx.eval();
  same(&a, &look(&f)?, &format!("float of {}", S::NAME), &|q| q.clone()).map_err(|e| format!("{} for {}", e, about))?;
  ctx.count(&format!("float of {}", S::NAME));
  ctx.nontrivial((S::NAME, "float", about.clone()));
  // convex polygons go the same way
  if let Ok(h) = graham_scan::convex_hull(p.iter().cloned().collect()) {
    let a = look(h.polygon())?;
    let g = h.clone().float();
    ctx.eval();
    same(&a, &look(g.polygon())?, "float of a hull", &|q| q.clone()).map_err(|e| format!("{} for {}", e, about))?;
    ctx.count("float of a convex polygon");
    normal(ctx, g.polygon(), &|| look(g.normalize().polygon()), &about)?;
    let q: Polygon<S> = h.clone().into();
    ck!(look(&q)? == a && look(<&Polygon<S>>::from(&h))? == a, "a convex polygon changes when seen as a polygon: {}", about);
  }
  if f.iter().count() >= 3 {
    if let Ok(g) = Polygon::new(f.iter_boundary().map(|c| *c.point()).collect()) {
      normal(ctx, &g, &|| look(&g.normalize()), &about)?;
    }
  }
  Ok(())
}
/// Normalising is the map p -> (p - centroid) / larger extent, up to rounding.
fn normal(ctx: &mut Ctx, before: &Polygon<OF64>, after: &dyn Fn() -> Result<View, String>, about: &str) -> Res {
  let a = look(before)?;
  let b: Vec<R2> = a.ring.iter().map(|i| a.by_id[i.usize()].clone()).collect();
  let n = b.len();
  let zero = BigRational::from_integer(0.into());
  let (mut cx, mut cy, mut area) = (zero.clone(), zero.clone(), zero.clone());
  for i in 0..n {
    let (p, q) = (&b[i], &b[(i + 1) % n]);
    let c = ex::rcross(p, q);
    cx += (&p[0] + &q[0]) * &c;
    cy += (&p[1] + &q[1]) * &c;
    area += c;
  }
  let ext = (0..2).map(|c| b.iter().map(|p| &p[c]).max().unwrap() - b.iter().map(|p| &p[c]).min().unwrap()).max().unwrap();
  let top = b.iter().flatten().map(|c| if *c < zero { -c } else { c.clone() }).max().unwrap();
  let f = |v: &BigRational| v.to_f64().unwrap();
  // finite results only
  if area == zero || !(1e-60..1e60).contains(&f(&top)) || !(1e-60..1e60).contains(&f(&ext)) || f(&area).abs() < 1e-100 {
    return Ok(());
  }
  // rounding in the centroid is relative to the cubed coordinates over the area
  let (ftop, fext, farea) = (f(&top), f(&ext), f(&area).abs());
  let bound = 1e-13 * n as f64 * (ftop.powi(3) / farea / fext + ftop / fext + 1.0);
  if !(bound < 1e-3) {
    ctx.count("normalize: ill-conditioned, not judged");
    return Ok(());
  }
  let after = after()?;
  ck!(a.ring == after.ring, "normalize: boundary {:?} became {:?} for {}", a.ring, after.ring, about);
  let three = BigRational::from_integer(3.into());
  let c = [cx / (&area * &three), cy / (&area * &three)];
  for (i, id) in a.ring.iter().enumerate() {
    let g = &after.by_id[id.usize()];
    for k in 0..2 {
      let w = (&b[i][k] - &c[k]) / &ext;
      let d = f(&(&g[k] - &w)).abs();
      ctx.eval();
      ck!(d <= bound, "normalize puts vertex {:?} at {:?}, {} off coordinate {} (rounding allows {}) for {}", id, [f(&g[0]), f(&g[1])], d, k, bound, about);
    }
  }
  ctx.count("normalized");
  Ok(())
}
fn casts(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  macro_rules! any {
    ($($s:ty => $u:ty),*) => {{
      let fs: &[fn(&mut Ctx, &mut Rg) -> Res] = &[$(cast_to::<$s, $u>),*];
      fs[r.below(fs.len())](ctx, r)
    }};
  }
  any!(
    i8 => i16, i8 => i32, i8 => i64, i8 => isize, i8 => f32, i8 => f64, i8 => BigInt, i16 => i32, i16 => i64, i16 => f32, i16 => f64, i16 => isize,
    i16 => BigInt, i32 => i64, i32 => f64, i32 => BigInt, i64 => BigInt, isize => BigInt, BigInt => BigRational, f32 => f64, f32 => OF32, f64 => OF64,
    OF32 => f32, OF64 => f64, NN32 => f32, NN64 => f64, i32 => Rug, i64 => Rug, i8 => Rug, i8 => OF64
  )
}
fn floats(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let fs: &[fn(&mut Ctx, &mut Rg) -> Res] = &[float_of::<i8>, float_of::<i16>, float_of::<i32>, float_of::<f32>, float_of::<f64>, float_of::<OF64>, float_of::<NN64>];
  fs[r.below(fs.len())](ctx, r)
}
/// Transformations act on every vertex and keep the structure.
fn transforms(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let p = source::<BigRational>(ctx, r);
  let a = look(&p)?;
  let v = |r: &mut Rg| BigRational::new(BigInt::from(r.range(-20, 20)), BigInt::from(r.range(1, 5)));
  let (m, o) = ([v(r), v(r)], [v(r), v(r)]);
  let t: Transform<BigRational, 2> = Transform::translate(Vector(o.clone())) * Transform::scale(Vector(m.clone()));
  let got = match r.below(4) {
    0 => &t * &p,
    1 => &t * p.clone(),
    2 => t * &p,
    _ => t * p.clone(),
  };
  ctx.eval();
  same(&a, &look(&got)?, "transform", &|q| [0, 1].map(|i| &q[i] * &m[i] + &o[i])).map_err(|e| format!("{} for {}", e, show(&boundary(&p))))?;
  ck!(look(&p)? == a, "transforming changed the source {}", show(&boundary(&p)));
  ctx.count("transformed");
  ctx.nontrivial((show(&boundary(&p)), format!("{:?}{:?}", m, o)));
  Ok(())
}

/// More vertices than sixteen bits count.
fn huge_of<S: Sc + Into<f64>>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = huge_n(r);
  let v = huge_simple(r, n);
  let Some(pts) = Emb::id().all::<S>(&v) else { return Ok(()) };
  let mut p = build_huge(r, &pts);
  let a = look(&p)?;
  let what = |e: String| format!("{} for {} vertices like {}", e, v.len(), show(&pts[..3]));
  let swap = |q: &R2| [q[1].clone(), q[0].clone()];
  ctx.eval();
  let m = p.clone().map_points(|q| { let [x, y] = q.array; Point::new([y, x]) });
  same(&a, &look(&m).map_err(what)?, "map_points", &swap).map_err(what)?;
  let m = p.clone().map(|c: S| c.rat() + BigRational::from_integer(1.into()));
  same(&a, &look(&m).map_err(what)?, "map", &|q| [0, 1].map(|i| &q[i] + BigRational::from_integer(1.into()))).map_err(what)?;
  same(&a, &look(&p.clone().cast::<f64>()).map_err(what)?, "cast", &|q| q.clone()).map_err(what)?;
  same(&a, &look(&p.clone().float()).map_err(what)?, "float", &|q| q.clone()).map_err(what)?;
  same(&a, &look(&p.clone()).map_err(what)?, "clone", &|q| q.clone()).map_err(what)?;
  let h = PolygonConvex::new_unchecked(p.clone()).float();
  same(&a, &look(h.polygon()).map_err(what)?, "float of a convex polygon", &|q| q.clone()).map_err(what)?;
  for q in p.iter_mut() { q.array.swap(0, 1) }
  same(&a, &look(&p).map_err(what)?, "iter_mut", &swap).map_err(what)?;
  ctx.count("huge");
  ctx.nontrivial(v);
  Ok(())
}
fn huge(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, huge_of, [i32, f64])
}
fn main() {
  let _ = Kind::Fixed;
  engine::run_main(Property {
    id: "C36",
    rule: "one polygon (points, numbering and boundary order) and one way of mapping it",
    assumptions: &["normalising is judged up to a bound on rounding, and not at all where that bound is wide"],
    families: vec![
      Family { name: "map", quick: 15_000, thorough: 800_000, f: map },
      Family { name: "history", quick: 8_000, thorough: 400_000, f: history },
      Family { name: "casts", quick: 12_000, thorough: 600_000, f: casts },
      Family { name: "floats", quick: 8_000, thorough: 400_000, f: floats },
      Family { name: "transforms", quick: 4_000, thorough: 200_000, f: transforms },
      Family { name: "huge", quick: 8, thorough: 200, f: huge },
    ],
    require: &["edits by steps", "boundary order differs from numbering", "reversed in between", "float of a convex polygon", "normalized", "transformed", "huge", "cast i8 to f64"],
  })
}
