//! Judging convex hulls.
use crate::engine::{Ctx, Res};
use crate::ex::*;
use crate::gen::*;
use crate::rng::Rg;
use crate::sc::Sc;
use crate::{ck, with_ex};
use rgeometry::data::{Point, PolygonConvex};

/// `got` must be the extreme points of `pts` in counter-clockwise order, or an
/// error exactly when there are fewer than three of them.
pub fn check_hull<S: Sc, E: std::fmt::Debug>(ctx: &mut Ctx, pts: &[Point<S>], got: &Result<PolygonConvex<S>, E>) -> Res {
  ctx.eval();
  let mut all = pts.to_vec();
  let n = all.len();
  if let Ok(h) = got {
    all.extend(boundary(h.polygon()));
  }
  with_ex!(exact(&all), q => {
    let want = hull(&q[..n]);
    match got {
      Err(e) => {
        ck!(want.len() < 3, "hull of {} failed with {:?}, but the points are not on one line", show(pts), e);
        ctx.count("degenerate");
      }
      Ok(h) => {
        let hp = &q[n..];
        ck!(want.len() >= 3, "hull of {} is {} but all points are on one line", show(pts), show(&boundary(h.polygon())));
        ck!(is_rotation(&want, hp), "hull of {} is {}; extreme points in ccw order are {:?}", show(pts), show(&boundary(h.polygon())), want);
        // identifiers and boundary agree
        ck!(h.polygon().iter().count() == hp.len(), "hull of {} keeps {} points for {} vertices", show(pts), h.polygon().iter().count(), hp.len());
        ctx.count("hulls");
        ctx.max("hull vertices", hp.len() as f64);
        if want.len() < n { ctx.count("hulls_with_interior_points"); }
        if has_dups(&q[..n]) { ctx.count("inputs_with_duplicates"); }
      }
    }
    Ok(())
  })
}

/// Repeats some points and reorders the list.
pub fn variant<S: Sc>(r: &mut Rg, pts: &[Point<S>]) -> Vec<Point<S>> {
  let mut v = pts.to_vec();
  if v.is_empty() {
    return v;
  }
  for _ in 0..r.below(4) {
    let k = r.below(v.len());
    let at = r.below(v.len() + 1);
    v.insert(at, v[k].clone());
  }
  // midpoints of the set itself stay representable only by luck; reorder instead
  match r.below(4) {
    0 => v.reverse(),
    1 => {
      let k = r.below(v.len());
      v.rotate_left(k)
    }
    2 => {
      v.sort();
      if r.chance(1, 2) {
        v.reverse()
      }
    }
    _ => r.shuffle(&mut v),
  }
  zero_signs(r, &mut v);
  v
}

/// The k-th sequence over the nine points of the 3x3 lattice, shortest first.
pub fn lattice_seq(mut k: u64, max_len: usize) -> Vec<V> {
  let mut len = 0;
  let mut block = 1u64;
  while k >= block && len < max_len {
    k -= block;
    block *= 9;
    len += 1;
  }
  (0..len)
    .map(|_| {
      let d = (k % 9) as i64;
      k /= 9;
      [d % 3, d / 3]
    })
    .collect()
}
