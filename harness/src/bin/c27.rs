use num_traits::{One, ToPrimitive, Zero};
use rgeometry::data::{Point, Polygon, PolygonConvex, Vector};
use rgeometry::data::Transform;
use std::ops::{AddAssign, Div, Mul};
use rgmon::gen::*;
use rgmon::rng::Rg;
use rgmon::sc::Sc;
use rgmon::*;

/// What the (private) bound on transform scalars asks for.
trait TransformScalar: One + Zero + Div<Output = Self> + AddAssign + Clone + Mul<Self, Output = Self> {}
impl<T: One + Zero + Div<Output = T> + AddAssign + Clone + Mul<T, Output = T>> TransformScalar for T {}
type Q = BigRational;
fn q(v: i64) -> Q {
  Q::from_integer(v.into())
}
/// x -> mul * x + off, coordinate by coordinate.
#[derive(Clone, Debug)]
struct Model<const N: usize> {
  mul: [Q; N],
  off: [Q; N],
}
impl<const N: usize> Model<N> {
  fn id() -> Self {
    Model { mul: std::array::from_fn(|_| Q::one()), off: std::array::from_fn(|_| Q::zero()) }
  }
  fn at(&self, v: &[Q; N]) -> [Q; N] {
    std::array::from_fn(|i| &self.mul[i] * &v[i] + &self.off[i])
  }
  /// self after other
  fn after(&self, o: &Self) -> Self {
    Model {
      mul: std::array::from_fn(|i| &self.mul[i] * &o.mul[i]),
      off: std::array::from_fn(|i| &self.mul[i] * &o.off[i] + &self.off[i]),
    }
  }
}
fn small_value<S: Sc>(r: &mut Rg, lim: i64) -> S {
  match S::KIND {
    sc::Kind::Rational if r.chance(1, 2) => S::from_rat(&Q::new(r.range(-lim, lim).into(), r.range(1, 9).into())).unwrap(),
    sc::Kind::F32 | sc::Kind::F64 if r.chance(1, 3) => S::from_rat(&Q::new(r.range(-lim, lim).into(), (1i64 << r.below(4)).into())).unwrap(),
    _ => S::from_i(r.range(-lim, lim)).unwrap(),
  }
}
fn atom<S: Sc + TransformScalar, const N: usize>(ctx: &mut Ctx, r: &mut Rg, lim: i64) -> (Transform<S, N>, Model<N>, String) {
  let mut m = Model::id();
  match r.below(3) {
    0 => {
      let v: [S; N] = std::array::from_fn(|_| small_value(r, lim));
      for i in 0..N { m.off[i] = v[i].rat() }
      ctx.count("translate");
      (Transform::translate(Vector(v.clone())), m, format!("translate {:?}", v))
    }
    1 => {
      let v: [S; N] = std::array::from_fn(|_| small_value(r, lim));
      for i in 0..N { m.mul[i] = v[i].rat() }
      ctx.count("scale");
      (Transform::scale(Vector(v.clone())), m, format!("scale {:?}", v))
    }
    _ => {
      let v: S = small_value(r, lim);
      for i in 0..N { m.mul[i] = v.rat() }
      ctx.count("uniform_scale");
      (Transform::uniform_scale(v.clone()), m, format!("uniform_scale {:?}", v))
    }
  }
}
/// A product of `k` atoms in a random association and ownership.
fn product<S: Sc + TransformScalar, const N: usize>(ctx: &mut Ctx, r: &mut Rg, k: usize, lim: i64) -> (Transform<S, N>, Model<N>, String) {
  if k <= 1 { return atom(ctx, r, lim) }
  let j = 1 + r.below(k - 1);
  let (a, ma, sa) = product::<S, N>(ctx, r, j, lim);
  let (b, mb, sb) = product::<S, N>(ctx, r, k - j, lim);
  ctx.count("products");
  let t = if r.chance(1, 2) { a * b } else { &a * &b };
  (t, ma.after(&mb), format!("({} * {})", sa, sb))
}
fn rats<S: Sc, const N: usize>(v: &[S; N]) -> [Q; N] {
  std::array::from_fn(|i| v[i].rat())
}
fn dims<S: Sc + TransformScalar, const N: usize>(ctx: &mut Ctx, r: &mut Rg) -> Res {
  let k = 1 + r.below(4);
  // bounded so that no type overflows and no float rounds
  let lim = match S::KIND { sc::Kind::Big | sc::Kind::Rational => 1 << 30, _ => if k > 2 { 6 } else { 20 } };
  let lim = lim.min(S::MAX).max(1);
  let lim = if S::MAX == 127 { if k == 1 { 10 } else { 2 } } else { lim };
  let k = if S::MAX == 127 { k.min(2) } else { k };
  let (t, m, s) = product::<S, N>(ctx, r, k, lim);
  ctx.sample(|| s.clone());
  ctx.nontrivial((&s, S::NAME));
  for _ in 0..4 {
    let a: [S; N] = std::array::from_fn(|_| small_value(r, lim.min(if S::MAX == 127 { 5 } else { i64::MAX })));
    let want = m.at(&rats(&a));
    let p = Point::new(a.clone());
    let v = Vector(a.clone());
    let got = [
      ("&t * &point", (&t * &p).array),
      ("&t * point", (&t * p.clone()).array),
      ("t * point", (t.clone() * p.clone()).array),
      ("&t * &vector", (&t * &v).0),
      ("&t * vector", (&t * v.clone()).0),
      ("t * &vector", (t.clone() * &v).0),
    ];
    for (form, g) in got {
      ctx.eval();
      ck!(rats(&g) == want, "{} of {} in {} dimensions over {} at {:?} is {:?}, exactly {:?}", form, s, N, S::NAME, a, g, want);
    }
    ck!(rats(&p.array) == rats(&a) && rats(&v.0) == rats(&a), "the operand of {} changed", s);
  }
  ctx.count(&format!("dimension:{}", N));
  Ok(())
}
fn points<S: Sc + TransformScalar>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  match r.below(5) {
    0 => dims::<S, 1>(ctx, r),
    1 => dims::<S, 2>(ctx, r),
    2 => dims::<S, 3>(ctx, r),
    3 => dims::<S, 4>(ctx, r),
    _ => dims::<S, 6>(ctx, r),
  }
}
fn fam_points(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, points, [i8, i16, i32, i64, isize, BigInt, BigRational, f32, f64, OF32, OF64, NN32, NN64])
}
fn poly<S: Sc + TransformScalar>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let big = matches!(S::KIND, sc::Kind::Big | sc::Kind::Rational);
  let lim = if S::MAX == 127 { 3 } else if big { 1 << 20 } else { 40 };
  let n = 3 + r.below(12);
  let p: Polygon<S> = if r.chance(1, 2) {
    match tangled::<S>(r, n, lim) { Some(p) => p, None => return Ok(()) }
  } else {
    let v = simple_poly(r, n, lim.max(3));
    if v.iter().any(|c| c[0].abs() > 5 && S::MAX == 127 || c[1].abs() > 5 && S::MAX == 127) { return Ok(()) }
    let pts = Emb::id().all::<S>(&v).unwrap();
    build(r, &pts).0
  };
  let p = if S::MAX != 127 && r.chance(1, 40) {
    let n = if r.chance(1, 16) && !big { ctx.count("huge"); huge_n(r) } else { big_n(r, 60, 1500) };
    let lim = 40;
    ctx.count("big");
    let v: Vec<V> = (0..n).map(|_| [r.range(-lim, lim), r.range(-lim, lim)]).collect();
    rgmon::past::seasoned(r, Emb::id().all::<S>(&v).unwrap())
  } else { p };
  let top = Q::from_integer((lim.max(5) * 2).into());
  if !big && p.iter().any(|v| v.array.iter().any(|c| num_traits::Signed::abs(&c.rat()) > top || !(c.rat() * q(8)).is_integer())) { return Ok(()) }
  let k = if S::MAX == 127 { 1 } else { 1 + r.below(3) };
  let (t, m, s) = product::<S, 2>(ctx, r, k, if S::MAX == 127 { 3 } else { 6 });
  let before: Vec<Point<S>> = p.iter().cloned().collect();
  let ids = p.boundary_slice().to_vec();
  rgmon::past::warm(r, &p);
  let forms = [
    ("&t * &polygon", &t * &p),
    ("&t * polygon", &t * p.clone()),
    ("t * polygon", t.clone() * p.clone()),
    ("t * &polygon", t.clone() * &p),
  ];
  ctx.nontrivial((key(&before), &s));
  if ids.windows(2).any(|w| w[0] > w[1]) { ctx.count("renumbered_polygon") }
  for (form, g) in forms {
    ctx.eval();
    ck!(g.boundary_slice() == &ids[..], "{} of {} changes the boundary order from {:?} to {:?}", form, s, ids, g.boundary_slice());
    let after: Vec<Point<S>> = g.iter().cloned().collect();
    ck!(after.len() == before.len(), "{} of {} has {} points instead of {}", form, s, after.len(), before.len());
    for (a, b) in before.iter().zip(&after) {
      ck!(rats(&b.array) == m.at(&rats(&a.array)), "{} of {} takes {:?} to {:?}", form, s, a, b);
    }
    for &id in &ids {
      ck!(rats(&g.point(id).array) == m.at(&rats(&p.point(id).array)), "{} of {}: vertex {:?} is {:?}", form, s, id, g.point(id));
      ck!(g.cursor(id).point_id() == id, "{} of {}: cursor of {:?}", form, s, id);
    }
    if r.chance(1, 4) {
      rgmon::past::fresh_agrees(ctx, r, &g, &format!("{} of {}", form, s))?;
    }
  }
  ck!(p.iter().map(|v| rats(&v.array)).eq(before.iter().map(|v| rats(&v.array))) && p.boundary_slice() == &ids[..], "the polygon given to {} by reference changed", s);
  ctx.count("polygons");
  Ok(())
}
fn fam_poly(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, poly, [i8, i16, i32, i64, isize, BigInt, BigRational, f32, f64, OF32, OF64, NN32, NN64])
}
fn normalize(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = 1i64 << (1 + r.below(20));
  let n = 3 + r.below(14);
  let convex = r.chance(1, 4);
  let mut p: Polygon<OF64> = if convex {
    let v = convex_poly(r, n, lim);
    rgmon::past::seasoned(r, Emb::id().all::<OF64>(&v).unwrap())
  } else if r.chance(1, 3) {
    match tangled(r, n, lim) { Some(p) => p, None => return Ok(()) }
  } else {
    let mut v = simple_poly(r, n, lim);
    if r.chance(1, 3) { v.reverse() }
    rgmon::past::seasoned(r, Emb::id().all::<OF64>(&v).unwrap())
  };
  if r.chance(1, 2) {
    // any scale
    let e = r.range(-60, 60) as i32;
    for v in p.iter_mut() { for c in v.array.iter_mut() { c.0 *= 2f64.powi(e) } }
  }
  let b = boundary(&p);
  let rat: Vec<[Q; 2]> = b.iter().map(sc::rpt).collect();
  let m = rat.len();
  let mut a2 = Q::zero();
  let mut sum = [Q::zero(), Q::zero()];
  for i in 0..m {
    let (u, v) = (&rat[i], &rat[(i + 1) % m]);
    let w = ex::rcross(u, v);
    for c in 0..2 { sum[c] += (&u[c] + &v[c]) * &w }
    a2 += w;
  }
  let c = [&sum[0] / (&a2 * q(3)), &sum[1] / (&a2 * q(3))];
  let side = |k: usize| rat.iter().map(|v| &v[k]).max().unwrap() - rat.iter().map(|v| &v[k]).min().unwrap();
  let (w, h) = (side(0), side(1));
  ctx.count(if w > h { "wide" } else { "tall" });
  let ratio = if w > h { w } else { h };
  let got = if convex { let g = PolygonConvex::new_unchecked(p.clone()).normalize(); Polygon::from(g) } else { p.normalize() };
  ctx.eval();
  ck!(got.boundary_slice() == p.boundary_slice(), "normalize changes the boundary order of {}", show(&b));
  // Cancellation in the sums grows with the bounding square over the area.
  let big = rat.iter().flatten().map(|v| num_traits::Signed::abs(v)).max().unwrap();
  let cond = (&big * &big * q(m as i64 * 8) / num_traits::Signed::abs(&a2)).to_f64().unwrap().max(1.0) * (&big / &ratio).to_f64().unwrap().max(1.0);
  if cond > 1e9 { ctx.count("ill_conditioned"); return Ok(()) }
  let tol = 1e-15 * cond * 64.0;
  ctx.max("tolerance", tol);
  ctx.nontrivial(key(&b));
  for (a, g) in rat.iter().zip(boundary(&got)) {
    for k in 0..2 {
      let want = ((&a[k] - &c[k]) / &ratio).to_f64().unwrap();
      ctx.eval();
      ck!((g.array[k].0 - want).abs() <= tol, "normalize of {} takes {} to {}, exactly {} (tolerance {})", show(&b), a[k], g.array[k], want, tol);
    }
  }
  ctx.count("normalized");
  Ok(())
}
fn main() {
  engine::run_main(Property {
    id: "C27",
    rule: "a transform expression with its operand, distinct by both",
    assumptions: &["operands are small enough that fixed-width integers do not overflow and floats do not round", "normalize is judged within the rounding error of its formula"],
    families: vec![
      Family { name: "points", quick: 30000, thorough: 2000000, f: fam_points },
      Family { name: "polygons", quick: 15000, thorough: 800000, f: fam_poly },
      Family { name: "normalize", quick: 8000, thorough: 400000, f: normalize },
    ],
    require: &["translate", "scale", "uniform_scale", "products", "dimension:1", "dimension:2", "dimension:3", "dimension:4", "dimension:6", "polygons", "renumbered_polygon", "big", "huge", "normalized", "wide", "tall"],
  })
}
