//! Polygons with a past: asked questions, then changed in place or moved into a
//! new form. What they answer afterwards may only depend on the vertices they
//! have now.
use crate::gen::boundary;
use crate::rng::Rg;
use crate::sc::{Kind, Sc};
use crate::{ck, no_panic, Ctx, Res};
use rgeometry::data::{Point, Polygon, Vector};
use std::hash::{Hash, Hasher};

fn swap<S: Clone>(p: &Point<S>) -> Point<S> {
  Point::new([p.array[1].clone(), p.array[0].clone()])
}
/// Asks some of the questions a polygon answers. The answers are not used.
pub fn warm<S: Sc>(r: &mut Rg, p: &Polygon<S>) {
  let ids = p.boundary_slice();
  let n = ids.len();
  if n == 0 {
    return;
  }
  let pick = |r: &mut Rg| p.point(ids[r.below(n)]).clone();
  let all = r.chance(1, 2);
  let mut order: Vec<usize> = (0..8).collect();
  r.shuffle(&mut order);
  for k in order {
    if !all && r.chance(1, 2) {
      continue;
    }
    match k {
      0 => drop(p.bounding_box()),
      1 => drop(p.orientation()),
      2 => {
        let q = pick(r);
        // neither on a vertex nor far away, where the type allows it
        let q = if r.chance(1, 2) { swap(&q) } else { q };
        drop(p.locate(&q));
      }
      3 => {
        let c = p.cursor(ids[r.below(n)]);
        drop((c.next().is_ear(), c.prev().orientation(), c.is_ear()));
      }
      4 => {
        // bounded types may overflow
        if n <= 6 || !matches!(S::KIND, Kind::Fixed | Kind::Rational) {
          drop(no_panic(|| p.signed_area_2x::<S>()));
        }
      }
      5 => {
        if n <= 40 {
          drop(p.validate());
        }
      }
      6 => drop((p.iter_boundary_edges().count(), p.iter_boundary().len(), p.iter().count())),
      _ => {
        if n <= 200 {
          drop((p.equals(p), p.is_monotone(&Vector([S::from_constant(1), S::from_constant(0)]))));
        }
      }
    }
  }
}
/// `Polygon::new_unchecked(pts)`, or the same made in place of a polygon with
/// other vertices that has been in use.
pub fn seasoned<S: Sc>(r: &mut Rg, pts: Vec<Point<S>>) -> Polygon<S> {
  let how = r.below(9);
  if how < 3 || pts.is_empty() || (pts.len() > 3000 && how < 7) {
    return Polygon::new_unchecked(pts);
  }
  if how == 3 {
    // the same vertices, asked before
    let p = Polygon::new_unchecked(pts);
    warm(r, &p);
    return if r.chance(1, 2) { p.clone() } else { p };
  }
  if how == 4 {
    // other vertices: each point is the next one
    let mut v = pts.clone();
    v.rotate_left(1);
    if r.chance(1, 3) {
      v.iter_mut().for_each(|p| *p = pts[0].clone());
    }
    let mut p = Polygon::new_unchecked(v);
    warm(r, &p);
    for (a, b) in p.iter_mut().zip(pts) {
      *a = b
    }
    return p;
  }
  let mut p = Polygon::new_unchecked(pts.iter().map(swap).collect());
  warm(r, &p);
  match how {
    5 => p.map_points(|p| swap(&p)),
    6 => {
      let mut q = p.clone();
      if r.chance(1, 2) {
        warm(r, &q);
      }
      q.iter_mut().for_each(|p| *p = swap(p));
      q
    }
    7 => {
      // one coordinate at a time
      for p in p.iter_mut() {
        let x = p.array[0].clone();
        p.array[0] = p.array[1].clone();
        p.array[1] = x;
      }
      p
    }
    _ => {
      // twice
      let p = p.map_points(|p| swap(&p));
      let mut p = p.map_points(|p| swap(&p));
      warm(r, &p);
      for p in p.iter_mut() {
        *p = swap(p)
      }
      p
    }
  }
}
fn hash<T: Hash>(t: &T) -> u64 {
  let mut h = std::collections::hash_map::DefaultHasher::new();
  t.hash(&mut h);
  h.finish()
}
/// A polygon answers as a new one with the same boundary does.
pub fn fresh_agrees<S: Sc>(ctx: &mut Ctx, r: &mut Rg, p: &Polygon<S>, what: &str) -> Res {
  let b = boundary(p);
  let n = b.len();
  if n == 0 {
    return Ok(());
  }
  let f = Polygon::new_unchecked(b.clone());
  let at = |x: String| format!("{} ({} vertices {:?}): {}", what, n, b.iter().take(12).collect::<Vec<_>>(), x);
  ctx.eval();
  ctx.count("compared with a new polygon");
  let (x, y) = (p.orientation(), f.orientation());
  ck!(x == y, "{}", at(format!("orientation {:?}, a new polygon says {:?}", x, y)));
  let (x, y) = (p.bounding_box(), f.bounding_box());
  ck!(x == y, "{}", at(format!("bounding box {:?}, a new polygon says {:?}", x, y)));
  for k in 0..4 {
    let q = if k == 0 { b[r.below(n)].clone() } else { Point::new([b[r.below(n)].array[r.below(2)].clone(), b[r.below(n)].array[r.below(2)].clone()]) };
    let (x, y) = (p.locate(&q), f.locate(&q));
    ck!(x == y, "{}", at(format!("{:?} located {:?}, a new polygon says {:?}", q, x, y)));
  }
  for _ in 0..3 {
    let k = r.below(n);
    let (c, d) = (p.cursor(p.boundary_slice()[k]), f.cursor(f.boundary_slice()[k]));
    let (x, y) = ((c.orientation(), c.is_ear()), (d.orientation(), d.is_ear()));
    ck!(x == y, "{}", at(format!("vertex {}: (orientation, is_ear) {:?}, a new polygon says {:?}", k, x, y)));
  }
  let (x, y) = (p.iter_boundary_edges().count(), p.iter_boundary().len());
  ck!(x == n && y == n, "{}", at(format!("{} edges, {} vertices to visit", x, y)));
  if matches!(S::KIND, Kind::Big) {
    let (x, y) = (p.signed_area_2x::<S>(), f.signed_area_2x::<S>());
    ck!(x == y, "{}", at(format!("area {:?}, a new polygon says {:?}", x, y)));
  }
  if n <= 60 {
    let (x, y) = (p.validate(), f.validate());
    ck!(x == y, "{}", at(format!("validate {:?}, a new polygon says {:?}", x, y)));
    ck!(p.equals(&f) && f.equals(p), "{}", at("not equal to a new polygon".into()));
    let d = Vector([S::from_constant(r.range(-2, 2) as i8), S::from_constant(1)]);
    let (x, y) = (p.is_monotone(&d), f.is_monotone(&d));
    ck!(x == y, "{}", at(format!("is_monotone {:?}, a new polygon says {:?}", x, y)));
  }
  Ok(())
}
/// The hash does not depend on the past either: a clone of the vertices made in
/// the same way has it too.
pub fn hash_agrees<S: Sc + Hash>(ctx: &mut Ctx, r: &mut Rg, p: &Polygon<S>) -> Res {
  let before = hash(p);
  warm(r, p);
  ctx.eval();
  ck!(hash(p) == before, "the hash changed when questions were asked of {:?}", boundary(p));
  let c = p.clone();
  ck!(hash(&c) == before, "a clone of {:?} hashes differently", boundary(p));
  Ok(())
}
