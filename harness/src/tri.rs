//! Judging triangulations and driving the triangulators.
use crate::engine::{Ctx, Res};
use crate::ex::*;
use crate::gen::*;
use crate::rng::Rg;
use crate::sc::Sc;
use crate::{ck, with_ex};
use rgeometry::data::{Point, PointId, Polygon};
use std::collections::HashMap;

pub type Tri = (PointId, PointId, PointId);

/// Takes at most `limit` items and one `next` after the end.
pub fn collect(it: impl Iterator<Item = Tri>, limit: usize) -> Result<Vec<Tri>, String> {
  let mut it = it;
  let mut out = vec![];
  while let Some(t) = it.next() {
    out.push(t);
    if out.len() > limit {
      return Err(format!("yields more than {} triangles", limit));
    }
  }
  if it.next().is_some() {
    return Err("yields another triangle after the end".into());
  }
  Ok(out)
}
/// `tris` must triangulate the polygon whose ccw boundary is `ids`.
pub fn judge<S: Sc>(ctx: &mut Ctx, pts: &[Point<S>], ids: &[PointId], tris: &[Tri], what: &str) -> Res {
  ctx.eval();
  ck!(ids.len() == pts.len(), "harness");
  let ix: HashMap<PointId, usize> = ids.iter().enumerate().map(|(i, &d)| (d, i)).collect();
  let mut t = vec![];
  for x in tris {
    match (ix.get(&x.0), ix.get(&x.1), ix.get(&x.2)) {
      (Some(&a), Some(&b), Some(&c)) => t.push([a, b, c]),
      _ => return Err(format!("{} of {}: triangle {:?} names a vertex that is not on the boundary", what, show(pts), x)),
    }
  }
  with_ex!(exact(pts), q => check_triangulation(q, &t)).map_err(|e| format!("{} of {} (vertices in boundary order): {}; triangles {:?}", what, show(pts), e, t))?;
  ctx.countn("triangles", t.len() as u64);
  Ok(())
}
/// A polygon for triangulation together with boundary-ordered points.
pub fn subject<S: Sc>(ctx: &mut Ctx, r: &mut Rg, n: usize) -> Option<Polygon<S>> {
  let lim = lim_for::<S>(r);
  if r.chance(1, 5) {
    let p = tangled::<S>(r, n.min(24), lim)?;
    ctx.count("tangled");
    return Some(p);
  }
  let v = simple_poly(r, n, lim);
  if with_flat(&v) {
    ctx.count("flat_vertices");
  }
  let (pts, _) = place::<S>(r, &v, &[], lim)?;
  let (p, via) = build(r, &pts);
  ctx.count(&format!("via {:?}", via));
  Some(p)
}
pub fn with_flat(v: &[V]) -> bool {
  let e = x128(v);
  let n = e.len();
  (0..n).any(|i| orient(&e[i], &e[(i + 1) % n], &e[(i + 2) % n]) == 0)
}
/// Long thin or needle shapes, spirals and combs with many vertices.
pub fn big_shape(r: &mut Rg, n: usize) -> Vec<V> {
  if r.chance(1, 3) { simple_poly(r, n, 1 << 20) } else { big_simple(r, n) }
}
