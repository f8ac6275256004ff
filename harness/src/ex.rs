//! Exact planar geometry used as oracle. Written from the definitions and
//! independent of the code under test.
use crate::sc::Sc;
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};
use rgeometry::data::Point;
use std::cmp::Ordering;
use std::fmt::Debug;

/// Exact integers: i128 for coordinates of up to 50 bits, else BigInt.
pub trait Nm: Clone + Ord + Signed + Debug + std::hash::Hash + Send + Sync {
  fn big(&self) -> BigInt;
  fn of(v: i64) -> Self;
}
impl Nm for i128 {
  fn big(&self) -> BigInt {
    BigInt::from(*self)
  }
  fn of(v: i64) -> Self {
    v as i128
  }
}
impl Nm for BigInt {
  fn big(&self) -> BigInt {
    self.clone()
  }
  fn of(v: i64) -> Self {
    BigInt::from(v)
  }
}

pub type P<N> = [N; 2];

#[derive(Clone, Debug)]
pub enum Ex {
  Small(Vec<P<i128>>),
  Big(Vec<P<BigInt>>, BigInt),
}

/// Exact coordinates of the points on one common integer scale. The scale is
/// 1 in the Small case and stored otherwise.
pub fn exact<S: Sc>(pts: &[Point<S>]) -> Ex {
  let mut v = Vec::with_capacity(pts.len());
  let mut ok = true;
  for p in pts {
    match (p.array[0].small(), p.array[1].small()) {
      (Some(x), Some(y)) => v.push([x as i128, y as i128]),
      _ => {
        ok = false;
        break;
      }
    }
  }
  if ok {
    return Ex::Small(v);
  }
  let r: Vec<[BigRational; 2]> = pts.iter().map(crate::sc::rpt).collect();
  exact_rat(&r)
}
pub fn exact_rat(r: &[[BigRational; 2]]) -> Ex {
  let mut l = BigInt::one();
  for p in r {
    for c in p {
      if !c.denom().is_one() {
        l = l.lcm(c.denom());
      }
    }
  }
  let big: Vec<P<BigInt>> = r
    .iter()
    .map(|p| [p[0].numer() * (&l / p[0].denom()), p[1].numer() * (&l / p[1].denom())])
    .collect();
  Ex::Big(big, l)
}

/// `with_ex!(exact(&pts), q => expr)`: runs the expression with `q` bound to the
/// slice of exact points, in whichever number type holds them.
#[macro_export]
macro_rules! with_ex {
  ($e:expr, $q:ident => $body:expr) => {
    match &$e {
      $crate::ex::Ex::Small($q) => {
        let $q = &$q[..];
        $body
      }
      $crate::ex::Ex::Big($q, _) => {
        let $q = &$q[..];
        $body
      }
    }
  };
}

pub fn sgn<N: Nm>(v: &N) -> i8 {
  if v.is_positive() {
    1
  } else if v.is_negative() {
    -1
  } else {
    0
  }
}

pub fn cross<N: Nm>(a: &P<N>, b: &P<N>, c: &P<N>) -> N {
  (b[0].clone() - a[0].clone()) * (c[1].clone() - a[1].clone()) - (b[1].clone() - a[1].clone()) * (c[0].clone() - a[0].clone())
}
/// +1 left turn, -1 right turn, 0 on one line.
pub fn orient<N: Nm>(a: &P<N>, b: &P<N>, c: &P<N>) -> i8 {
  sgn(&cross(a, b, c))
}
pub fn vcross<N: Nm>(u: &P<N>, v: &P<N>) -> N {
  u[0].clone() * v[1].clone() - u[1].clone() * v[0].clone()
}
pub fn vdot<N: Nm>(u: &P<N>, v: &P<N>) -> N {
  u[0].clone() * v[0].clone() + u[1].clone() * v[1].clone()
}
pub fn sub<N: Nm>(a: &P<N>, b: &P<N>) -> P<N> {
  [a[0].clone() - b[0].clone(), a[1].clone() - b[1].clone()]
}
pub fn dist2<N: Nm>(a: &P<N>, b: &P<N>) -> N {
  let d = sub(a, b);
  vdot(&d, &d)
}
pub fn cmp_dist<N: Nm>(p: &P<N>, q: &P<N>, r: &P<N>) -> Ordering {
  dist2(p, q).cmp(&dist2(p, r))
}
/// p on the closed segment ab.
pub fn on_seg<N: Nm>(p: &P<N>, a: &P<N>, b: &P<N>) -> bool {
  orient(a, b, p) == 0 && !vdot(&sub(a, p), &sub(b, p)).is_positive()
}

/// Angular sector of `v` relative to the direction `z`: 0 = same direction or
/// zero vector, 1 = strictly left, 2 = opposite, 3 = strictly right.
pub fn sector<N: Nm>(z: &P<N>, v: &P<N>) -> u8 {
  match sgn(&vcross(z, v)) {
    1 => 1,
    -1 => 3,
    _ => {
      if vdot(z, v).is_negative() {
        2
      } else {
        0
      }
    }
  }
}
/// Exact comparison of the angles of u and v in [0, 2pi) from z.
pub fn cmp_angle<N: Nm>(z: &P<N>, u: &P<N>, v: &P<N>) -> Ordering {
  let (a, b) = (sector(z, u), sector(z, v));
  a.cmp(&b).then_with(|| {
    if a == 1 || a == 3 {
      match sgn(&vcross(u, v)) {
        1 => Ordering::Less,
        -1 => Ordering::Greater,
        _ => Ordering::Equal,
      }
    } else {
      Ordering::Equal
    }
  })
}

pub fn area2<N: Nm>(p: &[P<N>]) -> N {
  let mut s = N::zero();
  for i in 0..p.len() {
    s = s + vcross(&p[i], &p[(i + 1) % p.len()]);
  }
  s
}

/// Closed segments share a point.
pub fn segs_meet<N: Nm>(a: &P<N>, b: &P<N>, c: &P<N>, d: &P<N>) -> bool {
  let (o1, o2, o3, o4) = (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b));
  if o1 * o2 < 0 && o3 * o4 < 0 {
    return true;
  }
  (o1 == 0 && on_seg(c, a, b)) || (o2 == 0 && on_seg(d, a, b)) || (o3 == 0 && on_seg(a, c, d)) || (o4 == 0 && on_seg(b, c, d))
}

/// The closed chain is a simple polygon: at least three distinct vertices,
/// non-neighbouring edges disjoint, neighbouring edges share only their vertex.
pub fn is_simple<N: Nm>(p: &[P<N>]) -> bool {
  let n = p.len();
  if n < 3 || has_dups(p) {
    return false;
  }
  let bb = |i: usize| {
    let (a, b) = (&p[i], &p[(i + 1) % n]);
    (
      if a[0] < b[0] { &a[0] } else { &b[0] },
      if a[0] < b[0] { &b[0] } else { &a[0] },
      if a[1] < b[1] { &a[1] } else { &b[1] },
      if a[1] < b[1] { &b[1] } else { &a[1] },
    )
  };
  let boxes: Vec<_> = (0..n).map(bb).collect();
  for i in 0..n {
    // neighbouring edges i and i+1
    let (a, b, c) = (&p[i], &p[(i + 1) % n], &p[(i + 2) % n]);
    if orient(a, b, c) == 0 && vdot(&sub(a, b), &sub(c, b)).is_positive() {
      return false;
    }
    for j in i + 2..n {
      if i == 0 && j == n - 1 {
        continue;
      }
      let (x, y) = (&boxes[i], &boxes[j]);
      if x.1 < y.0 || y.1 < x.0 || x.3 < y.2 || y.3 < x.2 {
        continue;
      }
      if segs_meet(&p[i], &p[i + 1], &p[j], &p[(j + 1) % n]) {
        return false;
      }
    }
  }
  true
}
pub fn has_dups<N: Nm>(p: &[P<N>]) -> bool {
  let mut s: Vec<&P<N>> = p.iter().collect();
  s.sort();
  s.windows(2).any(|w| w[0] == w[1])
}
pub fn all_colinear<N: Nm>(p: &[P<N>]) -> bool {
  let Some(a) = p.first() else { return true };
  let Some(b) = p.iter().find(|q| *q != a) else { return true };
  p.iter().all(|c| orient(a, b, c) == 0)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Loc {
  In,
  On,
  Out,
}
/// Location by winding number; meaningful for any closed chain.
pub fn locate<N: Nm>(p: &[P<N>], q: &P<N>) -> Loc {
  let n = p.len();
  let mut w = 0i32;
  for i in 0..n {
    let (a, b) = (&p[i], &p[(i + 1) % n]);
    if on_seg(q, a, b) {
      return Loc::On;
    }
    if a[1] <= q[1] {
      if b[1] > q[1] && orient(a, b, q) > 0 {
        w += 1;
      }
    } else if b[1] <= q[1] && orient(a, b, q) < 0 {
      w -= 1;
    }
  }
  if w != 0 {
    Loc::In
  } else {
    Loc::Out
  }
}

/// Extreme points in counter-clockwise order starting at the lexicographic
/// minimum; fewer than three when all points are on one line.
pub fn hull<N: Nm>(pts: &[P<N>]) -> Vec<P<N>> {
  let mut s: Vec<P<N>> = pts.to_vec();
  s.sort();
  s.dedup();
  if s.len() < 3 {
    return s;
  }
  let chain = |it: &mut dyn Iterator<Item = &P<N>>| {
    let mut h: Vec<P<N>> = vec![];
    for p in it {
      while h.len() >= 2 && orient(&h[h.len() - 2], &h[h.len() - 1], p) <= 0 {
        h.pop();
      }
      h.push(p.clone());
    }
    h.pop();
    h
  };
  let mut lo = chain(&mut s.iter());
  let up = chain(&mut s.iter().rev());
  lo.extend(up);
  lo
}

/// Strictly convex, counter-clockwise, winding once.
pub fn strictly_convex<N: Nm>(p: &[P<N>]) -> bool {
  let n = p.len();
  if n < 3 {
    return false;
  }
  (0..n).all(|i| orient(&p[i], &p[(i + 1) % n], &p[(i + 2) % n]) > 0) && {
    let h = hull(p);
    h.len() == n
  }
}

/// b is a rotation of a.
pub fn is_rotation<X: PartialEq>(a: &[X], b: &[X]) -> bool {
  let n = a.len();
  if n != b.len() {
    return false;
  }
  n == 0 || (0..n).any(|k| (0..n).all(|i| a[(i + k) % n] == b[i]))
}
pub fn reversed<X: Clone>(a: &[X]) -> Vec<X> {
  a.iter().rev().cloned().collect()
}

/// Vertex i of a simple ccw polygon is an ear: strictly convex and no other
/// vertex in the closed triangle.
pub fn is_ear<N: Nm>(p: &[P<N>], i: usize) -> bool {
  let n = p.len();
  let (a, b, c) = (&p[(i + n - 1) % n], &p[i], &p[(i + 1) % n]);
  if orient(a, b, c) <= 0 {
    return false;
  }
  (0..n).all(|j| {
    j == i || j == (i + 1) % n || j == (i + n - 1) % n || {
      let q = &p[j];
      orient(a, b, q) < 0 || orient(b, c, q) < 0 || orient(c, a, q) < 0
    }
  })
}

/// Verifies that `tris` (vertex indices into the boundary order of a simple ccw
/// polygon) is a triangulation.
pub fn check_triangulation<N: Nm>(p: &[P<N>], tris: &[[usize; 3]]) -> Result<(), String> {
  let n = p.len();
  if tris.len() != n - 2 {
    return Err(format!("{} triangles for {} vertices", tris.len(), n));
  }
  let mut edges = std::collections::HashMap::new();
  let mut sum = N::zero();
  for t in tris {
    if t.iter().any(|&i| i >= n) {
      return Err(format!("triangle {:?} names a vertex outside the polygon", t));
    }
    let c = cross(&p[t[0]], &p[t[1]], &p[t[2]]);
    if !c.is_positive() {
      return Err(format!("triangle {:?} is not counter-clockwise", t));
    }
    sum = sum + c;
    for k in 0..3 {
      let e = (t[k], t[(k + 1) % 3]);
      if edges.insert(e, ()).is_some() {
        return Err(format!("directed edge {:?} used twice", e));
      }
    }
  }
  if sum != area2(p) {
    return Err(format!("areas sum to {:?}, polygon has {:?}", sum, area2(p)));
  }
  for i in 0..n {
    if edges.remove(&(i, (i + 1) % n)).is_none() {
      return Err(format!("boundary edge {} -> {} is not used", i, (i + 1) % n));
    }
  }
  for (a, b) in edges.keys() {
    if !edges.contains_key(&(*b, *a)) {
      return Err(format!("diagonal {} -> {} has no partner", a, b));
    }
  }
  Ok(())
}
// A set of ccw triangles on the vertices of a simple polygon whose directed
// edges are the boundary once plus paired diagonals is a 2-chain with boundary
// equal to the polygon's; its winding function is then the polygon's indicator
// (1 inside, 0 outside). As all triangles are positively oriented, every point
// is covered exactly once: the triangles do not overlap and fill the polygon.

/// The closed segment ab stays inside the closed region of a simple ccw polygon.
/// (Used on rationals for visibility.) Splits ab at all contacts with the
/// boundary and tests the midpoints.
pub fn seg_inside(poly: &[[BigRational; 2]], a: &[BigRational; 2], b: &[BigRational; 2]) -> bool {
  let n = poly.len();
  let d = rsub(b, a);
  let mut ts: Vec<BigRational> = vec![BigRational::zero(), BigRational::one()];
  for i in 0..n {
    let (c, e) = (&poly[i], &poly[(i + 1) % n]);
    let f = rsub(e, c);
    let den = rcross(&d, &f);
    let ac = rsub(c, a);
    if den.is_zero() {
      if rcross(&d, &ac).is_zero() {
        let dd = rdot(&d, &d);
        if dd.is_zero() {
          continue;
        }
        ts.push(rdot(&ac, &d) / &dd);
        ts.push(rdot(&rsub(e, a), &d) / &dd);
      }
    } else {
      let t = rcross(&ac, &f) / &den;
      let u = rcross(&ac, &d) / &den;
      if u >= BigRational::zero() && u <= BigRational::one() {
        ts.push(t);
      }
    }
  }
  ts.retain(|t| *t >= BigRational::zero() && *t <= BigRational::one());
  ts.sort();
  ts.dedup();
  let two = BigRational::from_integer(BigInt::from(2));
  let at = |t: &BigRational| [&a[0] + &d[0] * t, &a[1] + &d[1] * t];
  for w in ts.windows(2) {
    let m = at(&((&w[0] + &w[1]) / &two));
    if locate_rat(poly, &m) == Loc::Out {
      return false;
    }
  }
  ts.iter().all(|t| locate_rat(poly, &at(t)) != Loc::Out)
}
pub fn rsub(a: &[BigRational; 2], b: &[BigRational; 2]) -> [BigRational; 2] {
  [&a[0] - &b[0], &a[1] - &b[1]]
}
pub fn rcross(a: &[BigRational; 2], b: &[BigRational; 2]) -> BigRational {
  &a[0] * &b[1] - &a[1] * &b[0]
}
pub fn rdot(a: &[BigRational; 2], b: &[BigRational; 2]) -> BigRational {
  &a[0] * &b[0] + &a[1] * &b[1]
}
pub fn locate_rat(poly: &[[BigRational; 2]], q: &[BigRational; 2]) -> Loc {
  let mut v = poly.to_vec();
  v.push(q.clone());
  match exact_rat(&v) {
    Ex::Big(b, _) => locate(&b[..b.len() - 1], &b[b.len() - 1]),
    Ex::Small(_) => unreachable!(),
  }
}
