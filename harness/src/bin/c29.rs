use num_traits::{Signed, ToPrimitive, Zero};
use rgeometry::data::{Point, Vector, VectorView};
use rgmon::gen::*;
use rgmon::rng::Rg;
use rgmon::sc::{rat_f64, Kind, Sc};
use rgmon::*;

type Q = BigRational;
fn rats<S: Sc, const N: usize>(v: &[S; N]) -> [Q; N] {
  std::array::from_fn(|i| v[i].rat())
}
fn big(v: i64) -> Q {
  Q::from_integer(v.into())
}
fn is_float<S: Sc>() -> bool {
  matches!(S::KIND, Kind::F32 | Kind::F64)
}
/// The coordinate an operation should give: exact, or for floats the rounded
/// scalar operation. None when the type cannot hold it.
fn rounded<S: Sc>(x: Q, f: impl FnOnce() -> S) -> Option<Q> {
  if is_float::<S>() {
    let v = f();
    // not finite: outside what is compared
    if !v.finite() { return None }
    return Some(v.rat());
  }
  S::from_rat(&x).map(|_| x)
}
trait Zeroish {
  fn is_zero_(&self) -> bool;
}
impl<S: Sc> Zeroish for S {
  fn is_zero_(&self) -> bool {
    *self == S::from_i(0).unwrap()
  }
}
/// Coordinates for both operands: small, and for fixed types near the ends.
fn value<S: Sc>(r: &mut Rg, wide: bool) -> S {
  match S::KIND {
    Kind::Fixed if wide => {
      let half = S::MAX / 2;
      S::from_i(match r.below(5) { 0 => S::MIN, 1 => S::MAX, 2 => r.range(-half, half), 3 => half, _ => r.range(S::MIN, S::MAX) }).unwrap()
    }
    Kind::Fixed => S::from_i(r.range(-11, 11)).unwrap(),
    _ if wide => raw_value::<S>(r),
    Kind::Rational => S::from_rat(&Q::new(r.range(-999, 999).into(), r.range(1, 99).into())).unwrap(),
    _ => S::from_i(r.range(-3000, 3000)).unwrap(),
  }
}
fn arith<S: Sc, const N: usize>(ctx: &mut Ctx, r: &mut Rg) -> Res {
  let wide = r.chance(1, 2);
  let a: [S; N] = std::array::from_fn(|_| value(r, wide));
  let b: [S; N] = std::array::from_fn(|_| value(r, wide));
  let kw = wide && r.chance(1, 2);
  let k: S = value(r, kw);
  let (qa, qb) = (rats(&a), rats(&b));
  let (pa, pb, va, vb) = (Point::new(a.clone()), Point::new(b.clone()), Vector(a.clone()), Vector(b.clone()));
  let (xa, xb) = (|| VectorView(&pa.array), || VectorView(&pb.array));
  ctx.nontrivial(format!("{} {:?} {:?}", S::NAME, a, b));
  let each = |f: &dyn Fn(usize) -> Option<Q>| -> Option<Vec<Q>> { (0..N).map(f).collect() };
  let mut check = |what: &str, got: &[S], want: &[Q]| -> Res {
    ctx.eval();
    ck!(got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g.finite() && g.rat() == *w), "{} over {} of {:?}, {:?} (scalar {:?}) is {:?}, expected {:?}", what, S::NAME, a, b, k, got, want);
    Ok(())
  };
  let mut done = vec![];
  // addition
  if let Some(w) = each(&|i| rounded::<S>(&qa[i] + &qb[i], || a[i].clone() + b[i].clone())) {
    check("&point + &vector", &(&pa + &vb).array, &w)?;
    check("point + vector", &(pa.clone() + vb.clone()).array, &w)?;
    check("point + &vector", &(pa.clone() + &vb).array, &w)?;
    let mut p = pa.clone();
    p += &vb;
    check("point += &vector", &p.array, &w)?;
    let mut p = pa.clone();
    p += vb.clone();
    check("point += vector", &p.array, &w)?;
    check("vector + vector", &(va.clone() + vb.clone()).0, &w)?;
    check("&vector + &vector", &(&va + &vb).0, &w)?;
    let mut v = va.clone();
    v += vb.clone();
    check("vector += vector", &v.0, &w)?;
    check("view + view", &(xa() + xb()).0, &w)?;
    done.push("add");
  }
  // subtraction
  if let Some(w) = each(&|i| rounded::<S>(&qa[i] - &qb[i], || a[i].clone() - b[i].clone())) {
    check("&point - &point", &(&pa - &pb).0, &w)?;
    check("point - point", &(pa.clone() - pb.clone()).0, &w)?;
    check("&vector - &vector", &(&va - &vb).0, &w)?;
    done.push("sub");
  }
  if let Some(w) = each(&|i| rounded::<S>(-&qa[i], || -a[i].clone())) {
    check("-vector", &(-va.clone()).0, &w)?;
    done.push("neg");
  }
  if let Some(w) = each(&|i| rounded::<S>(&qa[i] * k.rat(), || a[i].clone() * k.clone())) {
    check("vector * scalar", &(va.clone() * k.clone()).0, &w)?;
    check("view * scalar", &(xa() * k.clone()).0, &w)?;
    done.push("mul");
  }
  if !k.is_zero_() {
    let quot = |i: usize| {
      let q = &qa[i] / k.rat();
      rounded::<S>(if S::KIND == Kind::Rational { q } else { q.trunc() }, || a[i].clone() / k.clone())
    };
    if let Some(w) = each(&quot) {
      check("vector / scalar", &(va.clone() / k.clone()).0, &w)?;
      check("view / scalar", &(xa() / k.clone()).0, &w)?;
      done.push("div");
    }
  }
  // sums
  let m = r.below(6);
  let vs: Vec<[S; N]> = (0..m).map(|_| std::array::from_fn(|_| value(r, false))).collect();
  let w: Option<Vec<Q>> = (0..N)
    .map(|i| {
      let x: Q = vs.iter().map(|v| v[i].rat()).sum();
      S::from_rat(&x).map(|_| x)
    })
    .collect();
  if let Some(w) = w {
    let got: Vector<S, N> = vs.iter().map(|v| Vector(v.clone())).sum();
    check(&format!("sum of {:?}", vs), &got.0, &w)?;
    done.push("sum");
    if m == 0 { done.push("empty_sum") }
  }
  // squares, where nothing rounds
  if !wide {
    let sq: Q = qa.iter().map(|x| x * x).sum();
    if S::from_rat(&sq).is_some() && (!is_float::<S>() || sq < big(1 << 24)) {
      check("squared_magnitude", &[va.squared_magnitude()], &[sq])?;
      done.push("squared_magnitude");
    }
    let sd: Q = qa.iter().zip(&qb).map(|(x, y)| (x - y) * (x - y)).sum();
    if S::from_rat(&sd).is_some() && (!is_float::<S>() || sd < big(1 << 24)) {
      check("squared distance in the same type", &[pa.squared_euclidean_distance::<S>(&pb)], &[sd])?;
      done.push("squared_distance");
    }
  }
  // views and conversions between points and vectors
  check("as_vec", &pa.as_vec().0, &qa)?;
  let v: &Vector<S, N> = (&pa).into();
  check("&vector from &point", &v.0, &qa)?;
  ck!(std::ptr::eq(v.0.as_ptr(), pa.array.as_ptr()), "as_vec does not view the point");
  check("vector from point", &Vector::from(pa.clone()).0, &qa)?;
  check("point from vector", &Point::from(va.clone()).array, &qa)?;
  check("view from &point", VectorView::from(&pa).0, &qa)?;
  let z: Point<S, N> = Point::zero();
  check("zero", &z.array, &vec![Q::zero(); N])?;
  for i in 0..N {
    check("index", &[pa[i].clone(), va[i].clone(), pa.array[i].clone(), (*pa)[i].clone()], &[qa[i].clone(), qa[i].clone(), qa[i].clone(), qa[i].clone()])?;
  }
  check("map", &pa.map(|x| x).array, &qa)?;
  check("map", &va.map(|x| x).0, &qa)?;
  let seen = std::cell::RefCell::new(vec![]);
  let _ = pa.map(|x| { seen.borrow_mut().push(x.rat()); 0 });
  ck!(*seen.borrow() == qa, "map calls its function on {:?} for {:?}", seen.borrow(), a);
  // operands unchanged
  check("first operand afterwards", &pa.array, &qa)?;
  check("second operand afterwards", &pb.array, &qb)?;
  check("first vector afterwards", &va.0, &qa)?;
  check("second vector afterwards", &vb.0, &qb)?;
  for d in done { ctx.count(d) }
  ctx.count(&format!("dimension:{}", N));
  Ok(())
}
fn ops<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  match r.below(5) {
    0 => arith::<S, 1>(ctx, r),
    1 => arith::<S, 2>(ctx, r),
    2 => arith::<S, 3>(ctx, r),
    3 => arith::<S, 4>(ctx, r),
    _ => arith::<S, 7>(ctx, r),
  }
}
fn fam_ops(ctx: &mut Ctx) -> Res {
  all_types!(ctx, ops)
}
/// Squared distances in a wider type, including the ends of the narrow one.
fn distance(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  macro_rules! go {
    ($s:ty, [$($f:ty, $conv:expr);*]) => {{
      let v = raw_points::<$s>(r, 2);
      let sd: Q = (0..2).map(|c| { let d = v[0].array[c].rat() - v[1].array[c].rat(); &d * &d }).sum();
      ctx.nontrivial(key(&v));
      $( {
        let g: $f = v[0].squared_euclidean_distance(&v[1]);
        ctx.eval();
        ck!($conv(g.clone()) == sd, "squared_euclidean_distance::<{}> of {} is {:?}, exactly {}", stringify!($f), show(&v), g, sd);
      } )*
      let w: Vec<Point<$s, 3>> = (0..2).map(|i| Point::new([v[i].array[0].clone(), v[1 - i].array[1].clone(), v[i].array[1].clone()])).collect();
      let sd: Q = (0..3).map(|c| { let d = w[0].array[c].rat() - w[1].array[c].rat(); &d * &d }).sum();
      $( {
        let g: $f = w[0].squared_euclidean_distance(&w[1]);
        ctx.eval();
        ck!($conv(g.clone()) == sd, "squared_euclidean_distance::<{}> of {:?} is {:?}, exactly {}", stringify!($f), w, g, sd);
      } )*
      ctx.count("distance");
      Ok(())
    }};
  }
  let i = |v: i64| big(v);
  let l = |v: i128| Q::from_integer(v.into());
  let b = |v: BigInt| Q::from_integer(v);
  match r.below(8) {
    0 => go!(i8, [i32, |v: i32| i(v as i64); i64, i; i128, l; f64, rat_f64]),
    1 => go!(i16, [i64, i; i128, l; f64, rat_f64]),
    2 => go!(i32, [i128, l]),
    3 => go!(i64, [BigInt, b]),
    4 => go!(i32, [BigInt, b]),
    5 => go!(BigInt, [BigInt, b; BigRational, |v: Q| v]),
    6 => go!(BigRational, [BigRational, |v: Q| v]),
    _ => {
      // floats that do not round
      let v: Vec<Point<f32>> = (0..2).map(|_| Point::new([r.range(-9999, 9999) as f32, r.range(-9999, 9999) as f32])).collect();
      let sd: Q = (0..2).map(|c| { let d = v[0].array[c].rat() - v[1].array[c].rat(); &d * &d }).sum();
      let g: f64 = v[0].squared_euclidean_distance(&v[1]);
      ctx.eval();
      ck!(rat_f64(g) == sd, "squared_euclidean_distance::<f64> of {} is {}, exactly {}", show(&v), g, sd);
      ctx.count("distance");
      Ok(())
    }
  }
}
fn weird(r: &mut Rg) -> f64 {
  match r.below(8) {
    0 => f64::NAN,
    1 => f64::INFINITY,
    2 => f64::NEG_INFINITY,
    3 => -f64::NAN,
    4 => f64::from_bits(r.u64()),
    5 => *r.pick(&[0.0, -0.0, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 5e-324]),
    _ => r.range(-1000, 1000) as f64 / 8.0,
  }
}
fn tame(r: &mut Rg) -> f64 {
  loop {
    let v = weird(r);
    if v.is_finite() { return v }
  }
}
/// Nearest double, ties to even.
fn is_nearest(x: &Q, f: f64) -> bool {
  if !f.is_finite() {
    let edge = rat_f64(f64::MAX) + (rat_f64(f64::MAX) - rat_f64(nudge(f64::MAX, false))) / big(2);
    return f.is_infinite() && x.abs() >= edge && (f > 0.0) == x.is_positive();
  }
  let d = (rat_f64(f) - x).abs();
  for g in [nudge(f, true), nudge(f, false)] {
    if !g.is_finite() { continue }
    let e = (rat_f64(g) - x).abs();
    if e < d || (e == d && f.to_bits() & 1 == 1) { return false }
  }
  true
}
fn conv(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  // doubles to NotNan
  let a = [weird(r), weird(r), weird(r)];
  let nan = a.iter().any(|v| v.is_nan());
  ctx.nontrivial(format!("{:?}", a));
  let got: Result<Point<NotNan<f64>, 3>, _> = Point::new(a).try_into();
  ctx.eval();
  match got {
    Ok(p) => {
      ck!(!nan, "NaN accepted: {:?}", a);
      ck!((0..3).all(|i| p.array[i].into_inner().to_bits() == a[i].to_bits()), "{:?} converts to {:?}", a, p);
      ctx.count("to_notnan");
    }
    Err(_) => {
      ck!(nan, "{:?} rejected", a);
      ctx.count("nan_rejected");
    }
  }
  let got = no_panic(|| Point::new_nn(a));
  ctx.eval();
  match got {
    Ok(p) => ck!(!nan && (0..3).all(|i| p.array[i].into_inner().to_bits() == a[i].to_bits()), "new_nn({:?}) is {:?}", a, p),
    Err(_) => ck!(nan, "new_nn({:?}) panics", a),
  }
  // doubles to rationals
  let fin = a.iter().all(|v| v.is_finite());
  let got: Result<Vector<BigRational, 3>, ()> = Vector(a).try_into();
  ctx.eval();
  match got {
    Ok(v) => {
      ck!(fin, "{:?} converts to rationals {:?}", a, v);
      ck!((0..3).all(|i| v.0[i] == rat_f64(a[i])), "{:?} converts to rationals {:?}", a, v);
      ctx.count("vector_to_rational");
    }
    Err(()) => {
      ck!(!fin, "{:?} does not convert to rationals", a);
      ctx.count("nonfinite_rejected");
    }
  }
  if !fin {
    ck!(no_panic(|| Point::<BigRational, 3>::from(Point::new(a))).is_err(), "a point of rationals from {:?}", a);
    ck!(no_panic(|| Point::<BigRational, 3>::from(&Point::new(a))).is_err(), "a point of rationals from {:?}", a);
    ctx.count("nonfinite_point_rejected");
  }
  let t = [tame(r), tame(r)];
  let p = Point::new(t);
  for g in [Point::<BigRational, 2>::from(p), Point::<BigRational, 2>::from(&p)] {
    ctx.eval();
    ck!((0..2).all(|i| g.array[i] == rat_f64(t[i])), "{:?} converts to {:?}", t, g);
    // and back
    for back in [Point::<f64, 2>::from(&g), Point::<f64, 2>::from(g.clone())] {
      ctx.eval();
      ck!((0..2).all(|i| back.array[i] == t[i]), "{:?} comes back from rationals as {:?}", t, back);
    }
  }
  // rationals to doubles
  let q = [rational(r), rational(r)];
  let p = Point::new(q.clone());
  for g in [Point::<f64, 2>::from(&p), Point::<f64, 2>::from(p.clone())] {
    ctx.eval();
    ctx.count("rational_to_f64");
    for i in 0..2 {
      ck!(is_nearest(&q[i], g.array[i]), "the rational {} becomes {:?}", q[i], g.array[i]);
    }
  }
  Ok(())
}
fn rational(r: &mut Rg) -> Q {
  let n = BigInt::from(r.u64()) * BigInt::from(r.u64() >> r.below(63)) + BigInt::from(r.below(5));
  let d = BigInt::from((r.u64() >> r.below(63)).max(1));
  let n = match r.below(4) { 0 => n << r.below(300), 1 => n >> r.below(126), _ => n };
  let d = match r.below(4) { 0 => d << r.below(300), _ => d };
  let q = match r.below(5) {
    // half way between two doubles, or a little off
    0 => {
      let f = (r.range(1, 1 << 52) as f64) * 2f64.powi(r.range(-80, 80) as i32);
      let m = (rat_f64(f) + rat_f64(nudge(f, true))) / big(2);
      match r.below(3) { 0 => m, 1 => &m + &m / (BigInt::from(1u8) << 200usize), _ => &m - &m / (BigInt::from(1u8) << 200usize) }
    }
    _ => Q::new(n, d),
  };
  if r.chance(1, 2) { -q } else { q }
}
/// Lossless casts.
fn casts(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  macro_rules! go {
    ($s:ty, [$($f:ty),*]) => {{
      let p = raw_points::<$s>(r, 1).pop().unwrap();
      let v = Vector::from(p.clone());
      let want = rats(&p.array);
      ctx.nontrivial(key(&[p.clone()]));
      $( {
        let g: Point<$f, 2> = p.cast();
        let h: Vector<$f, 2> = v.cast();
        ctx.evals(2);
        ck!(rats(&g.array) == want && rats(&h.0) == want, "{} cast to {} is {:?} and {:?}", show(&[p.clone()]), stringify!($f), g, h);
      } )*
      ctx.count(concat!("cast:", stringify!($s)));
      Ok(())
    }};
  }
  match r.below(9) {
    0 => go!(i8, [i8, i16, i32, i64, BigInt, f32, f64, OF64]),
    1 => go!(i16, [i32, i64, BigInt, f32, f64]),
    2 => go!(i32, [i32, i64, BigInt, f64, OF64]),
    3 => go!(i64, [i64, BigInt]),
    4 => go!(BigInt, [BigInt, BigRational]),
    5 => go!(f32, [f32, f64, OF32]),
    6 => go!(f64, [OF64]),
    7 => {
      let p = Point::new([r.u64() as i64, r.u64() as i64]);
      let g: Point<BigInt, 2> = p.into();
      ctx.eval();
      ck!((0..2).all(|i| g.array[i].to_i64() == Some(p.array[i])), "{:?} becomes {:?}", p, g);
      let t = Point::from((p.array[0], p.array[1]));
      ck!(t.array == p.array, "point from a pair: {:?}", t);
      ck!(*p.x_coord() == p.array[0] && *p.y_coord() == p.array[1], "coordinates of {:?}", p);
      let s = Point::new([1u8, 2, 3]);
      ck!((*s.x_coord(), *s.y_coord(), *s.z_coord()) == (1, 2, 3) && *Point::new([9u8]).x_coord() == 9, "coordinates of {:?}", s);
      let u: Vector<i64, 2> = Vector::unit_right();
      ck!(u.0 == [1, 0], "unit_right is {:?}", u);
      ctx.count("bigint_from_i64");
      Ok(())
    }
    _ => {
      let a = r.u64() as i32;
      let p = Point::new([a, -77, r.u64() as i32]);
      let g = p.to_float();
      ctx.eval();
      ck!((0..3).all(|i| g.array[i].0 == p.array[i] as f64), "to_float of {:?} is {:?}", p, g);
      ctx.count("to_float");
      Ok(())
    }
  }
}
/// A random point or vector is that many random coordinates.
fn drawn(ctx: &mut Ctx) -> Res {
  use rand::Rng;
  let r = &mut ctx.rng.fork();
  let h = rng::Hostile::pick(r);
  macro_rules! go {
    ($t:ty, $n:expr) => {{
      let (mut a, mut b, mut c, mut d) = (h.clone(), h.clone(), h.clone(), h.clone());
      let p: Point<$t, $n> = a.gen();
      let v: Vector<$t, $n> = b.sample(rand::distributions::Standard);
      let w: Vec<$t> = (0..$n).map(|_| c.gen()).collect();
      ctx.evals(3);
      ck!(p.array[..] == w[..] && v.0[..] == w[..], "{} coordinates of {} drawn from a {} stream are {:?} and {:?}, one by one {:?}", $n, stringify!($t), h.name(), p, v, w);
      // the streams stand at the same place afterwards
      for _ in 0..$n { d.gen::<$t>(); }
      let at = d.gen::<u64>();
      ck!(a.gen::<u64>() == at && b.gen::<u64>() == at, "drawing {} coordinates of {} from a {} stream uses more or fewer words", $n, stringify!($t), h.name());
      ctx.nontrivial(format!("{} {:?}", stringify!($t), w));
    }};
  }
  macro_rules! dims {
    ($t:ty) => {
      match r.below(4) { 0 => go!($t, 1), 1 => go!($t, 2), 2 => go!($t, 3), _ => go!($t, 6) }
    };
  }
  match r.below(8) {
    0 => dims!(i8),
    1 => dims!(i16),
    2 => dims!(i32),
    3 => dims!(i64),
    4 => dims!(isize),
    5 => dims!(u8),
    6 => dims!(f32),
    _ => dims!(f64),
  }
  ctx.count("drawn");
  Ok(())
}
fn main() {
  engine::run_main(Property {
    id: "C29",
    rule: "operands of point and vector arithmetic or of a conversion, distinct by value and type",
    assumptions: &["an operation is judged when its exact result fits the type; for floats it is compared with the correctly rounded scalar operation"],
    families: vec![
      Family { name: "ops", quick: 240000, thorough: 2500000, f: fam_ops },
      Family { name: "distance", quick: 120000, thorough: 1000000, f: distance },
      Family { name: "conversions", quick: 120000, thorough: 1000000, f: conv },
      Family { name: "casts", quick: 60000, thorough: 500000, f: casts },
      Family { name: "drawn", quick: 40000, thorough: 400000, f: drawn },
    ],
    require: &["drawn", "add", "sub", "neg", "mul", "div", "sum", "empty_sum", "squared_magnitude", "squared_distance", "distance", "dimension:1", "dimension:2", "dimension:3", "dimension:4", "dimension:7", "to_notnan", "nan_rejected", "vector_to_rational", "nonfinite_rejected", "nonfinite_point_rejected", "rational_to_f64", "to_float", "bigint_from_i64", "cast:i8", "cast:f32", "cast:BigInt"],
  })
}
