use num_bigint::BigInt;
use num_rational::{BigRational, Ratio};
use num_traits::{Signed, ToPrimitive, Zero};
use rgeometry::data::{Point, Polygon};
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::rng::Rg;
use rgmon::sc::{rpt, Sc};
use rgmon::*;

fn big(v: &BigRational) -> BigInt {
  assert!(v.is_integer());
  v.to_integer()
}
fn area_rat(q: &[[BigRational; 2]]) -> BigRational {
  let n = q.len();
  let mut s = BigRational::zero();
  for i in 0..n { s += rcross(&q[i], &q[(i + 1) % n]) }
  s
}
/// Largest absolute value met while evaluating the shoelace sum.
fn head_room(q: &[[BigRational; 2]]) -> BigRational {
  let n = q.len();
  let mut s = BigRational::zero();
  for i in 0..n {
    let (a, b) = (&q[i], &q[(i + 1) % n]);
    s += (&a[0] * &b[1]).abs() + (&a[1] * &b[0]).abs();
  }
  s
}
fn rat_points<S: Sc>(p: &[Point<S>]) -> Vec<[BigRational; 2]> {
  p.iter().map(rpt).collect()
}
/// Any closed chain, from one vertex up.
fn chain<S: Sc>(r: &mut Rg) -> Vec<Point<S>> {
  let lim = lim_for::<S>(r);
  let n = match r.below(8) { 0 => 1 + r.below(3), 1 => 20 + r.below(60), _ => 3 + r.below(12) };
  match r.below(3) {
    0 => raw_points::<S>(r, n),
    1 => {
      let v = point_set(r, n, lim);
      place::<S>(r, &v, &[], lim).map(|x| x.0).unwrap_or_else(|| raw_points::<S>(r, n))
    }
    _ => {
      let mut v = simple_poly(r, n.max(3), lim);
      if r.chance(1, 2) { v.reverse() }
      place::<S>(r, &v, &[], lim).map(|x| x.0).unwrap_or_else(|| raw_points::<S>(r, n))
    }
  }
}
fn rotate<T: Clone>(v: &[T], k: usize) -> Vec<T> {
  let mut w = v.to_vec();
  w.rotate_left(k);
  w
}
macro_rules! area_in {
  ($ctx:expr, $p:expr, $b:expr, $want:expr, $room:expr, $f:ty, $max:expr, $conv:expr, $half:expr) => {{
    // the type can hold every partial sum, with one bit to spare for other
    // orders of evaluation
    if &$room * of_big(2) <= $max {
      let got: $f = $p.signed_area_2x::<$f>();
      $ctx.eval();
      $ctx.count(concat!("result:", stringify!($f)));
      ck!($conv(&got) == $want, "signed_area_2x::<{}> of {} is {:?}, exactly {}", stringify!($f), show(&$b), got, $want);
      let got: $f = $p.signed_area::<$f>();
      $ctx.eval();
      ck!($conv(&got) == $half(&$want), "signed_area::<{}> of {} is {:?}, twice the area is {}", stringify!($f), show(&$b), got, $want);
    }
  }};
}
fn of_big(v: impl Into<BigInt>) -> BigRational {
  BigRational::from_integer(v.into())
}
/// Integer results drop the fraction.
fn trunc_half(v: &BigRational) -> BigRational {
  of_big(big(v) / BigInt::from(2))
}
fn half(v: &BigRational) -> BigRational {
  v / of_big(2)
}
macro_rules! ints {
  ($name:ident, $s:ty, [$($f:ty),*]) => {
    fn $name(ctx: &mut Ctx) -> Res {
      let r = &mut ctx.rng.fork();
      let b = chain::<$s>(r);
      let q = rat_points(&b);
      let (p, want, room) = poly_for(r, &b, &q);
      ctx.nontrivial(key(&b));
      ctx.sample(|| show(&b));
      if want.is_negative() { ctx.count("negative area") } else if want.is_zero() { ctx.count("zero area") } else { ctx.count("positive area") }
      if (want.clone() / of_big(2)).is_integer() { ctx.count("even doubled area") } else { ctx.count("odd doubled area") }
      $( area_in!(ctx, p, b, want, room, $f, of_big(<$f>::MAX), |v: &$f| of_big(*v), trunc_half); )*
      area_in!(ctx, p, b, want, room, BigInt, room.clone() * of_big(2), |v: &BigInt| of_big(v.clone()), trunc_half);
      boxes(ctx, &p, &b, &q)
    }
  };
}
/// A polygon over the chain, starting anywhere, by any constructor.
fn poly_for<S: Sc>(r: &mut Rg, b: &[Point<S>], q: &[[BigRational; 2]]) -> (Polygon<S>, BigRational, BigRational) {
  let k = r.below(b.len());
  (rgmon::past::seasoned(r, rotate(b, k)), area_rat(q), head_room(q))
}
fn boxes<S: Sc>(ctx: &mut Ctx, p: &Polygon<S>, b: &[Point<S>], q: &[[BigRational; 2]]) -> Res {
  let (lo, hi) = p.bounding_box();
  let (lo, hi) = (rpt(&lo), rpt(&hi));
  for c in 0..2 {
    let (mn, mx) = (q.iter().map(|v| &v[c]).min().unwrap(), q.iter().map(|v| &v[c]).max().unwrap());
    ctx.eval();
    ck!(lo[c] == *mn && hi[c] == *mx, "bounding box of {}: coordinate {} runs from {} to {}, exactly {} to {}", show(b), c, lo[c], hi[c], mn, mx);
  }
  ctx.count("boxes");
  Ok(())
}
ints!(area_i8, i8, [i8, i16, i32, i64, i128]);
ints!(area_i16, i16, [i16, i32, i64, i128]);
ints!(area_i32, i32, [i32, i64, i128]);
ints!(area_i64, i64, [i64, i128]);
fn area_other(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  macro_rules! go {
    ($s:ty, [$($f:ty, $conv:expr, $half:expr);*]) => {{
      let b = chain::<$s>(r);
      let q = rat_points(&b);
      let (p, want, room) = poly_for(r, &b, &q);
      ctx.nontrivial(key(&b));
      $( area_in!(ctx, p, b, want, room, $f, room.clone() * of_big(2), $conv, $half); )*
      boxes(ctx, &p, &b, &q)
    }};
  }
  match r.below(6) {
    0 => go!(BigInt, [BigInt, |v: &BigInt| of_big(v.clone()), trunc_half; BigRational, |v: &BigRational| v.clone(), half]),
    1 => go!(BigRational, [BigRational, |v: &BigRational| v.clone(), half]),
    2 => {
      // the documented Ratio result
      let b: Vec<Point<i32>> = { let n = 3 + r.below(8); (0..n).map(|_| Point::new([r.range(-9999, 9999) as i32, r.range(-9999, 9999) as i32])).collect() };
      let q = rat_points(&b);
      let (p, want, room) = poly_for(r, &b, &q);
      area_in!(ctx, p, b, want, room, Ratio<i32>, of_big(i32::MAX / 2), |v: &Ratio<i32>| BigRational::new((*v.numer()).into(), (*v.denom()).into()), half);
      Ok(())
    }
    3 => floats::<f64>(ctx, r, |p| (p.signed_area_2x::<f64>(), p.signed_area::<f64>())),
    4 => floats::<f32>(ctx, r, |p| (p.signed_area_2x::<f64>(), p.signed_area::<f64>())),
    _ => floats::<i32>(ctx, r, |p| (p.signed_area_2x::<f64>(), p.signed_area::<f64>())),
  }
}
/// Floating point results, on inputs where no operation rounds.
fn floats<S: Sc>(ctx: &mut Ctx, r: &mut Rg, f: fn(&Polygon<S>) -> (f64, f64)) -> Res {
  let n = 1 + r.below(20);
  let lim = 1i64 << (1 + r.below(22));
  let v: Vec<V> = (0..n).map(|_| [r.range(-lim, lim), r.range(-lim, lim)]).collect();
  let b = Emb::id().all::<S>(&v).unwrap();
  let q = rat_points(&b);
  let (p, want, _) = poly_for(r, &b, &q);
  let (a2, a1) = f(&p);
  ctx.evals(2);
  ctx.count("result:f64");
  ctx.nontrivial(key(&b));
  ck!(sc::rat_f64(a2) == want, "signed_area_2x::<f64> of {} is {}, exactly {}", show(&b), a2, want);
  ck!(sc::rat_f64(a1) == half(&want), "signed_area::<f64> of {} is {}, twice the area is {}", show(&b), a1, want);
  boxes(ctx, &p, &b, &q)
}
/// Bounding box and orientation in every type.
fn shape<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = 3 + r.below(20);
  let lim = lim_for::<S>(r);
  let mut v = simple_poly(r, n, lim);
  if r.chance(1, 2) { v.reverse() }
  let Some((b, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
  let q = rat_points(&b);
  ctx.nontrivial(key(&b));
  let k = r.below(b.len());
  let p = rgmon::past::seasoned(r, rotate(&b, k));
  let want = match area_rat(&q).is_positive() { true => 1, false => -1 };
  ctx.count(if want > 0 { "ccw" } else { "cw" });
  for p in [p, rgmon::past::seasoned(r, b.clone())] {
    ctx.eval();
    ck!(p.orientation() == common::ori(want), "orientation of {} is {:?}, exactly {:?}", show(&boundary(&p)), p.orientation(), common::ori(want));
    boxes(ctx, &p, &b, &q)?;
  }
  // polygons whose numbering differs from the boundary order
  let p: Polygon<S> = any_poly(r, 24);
  let b = boundary(&p);
  let q = rat_points(&b);
  ck!(p.orientation().is_ccw(), "orientation of {} (ids {:?}) is {:?}", show(&b), p.boundary_slice(), p.orientation());
  boxes(ctx, &p, &b, &q)?;
  let b2 = rotate(&b, r.below(b.len()));
  let b2 = reversed(&b2);
  let p2 = rgmon::past::seasoned(r, b2.clone());
  ck!(p2.orientation().is_cw(), "orientation of {} is {:?}", show(&b2), p2.orientation());
  Ok(())
}
fn fam_shape(ctx: &mut Ctx) -> Res {
  all_types!(ctx, shape)
}
fn centroid_of(q: &[[BigRational; 2]]) -> [BigRational; 2] {
  // area-weighted mean of the fan triangles around the first vertex
  let mut sum = [BigRational::zero(), BigRational::zero()];
  let mut w = BigRational::zero();
  for i in 1..q.len() - 1 {
    let a = rcross(&rsub(&q[i], &q[0]), &rsub(&q[i + 1], &q[0]));
    for c in 0..2 { sum[c] += (&q[0][c] + &q[i][c] + &q[i + 1][c]) / of_big(3) * &a }
    w += a;
  }
  [&sum[0] / &w, &sum[1] / &w]
}
fn centroid(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = 3 + r.below(16);
  let lim = lim_for::<BigRational>(r);
  let p = if r.chance(1, 2) {
    any_poly::<BigRational>(r, 20)
  } else {
    let mut v = simple_poly(r, n, lim);
    if r.chance(1, 2) { v.reverse(); }
    let Some((b, _)) = place::<BigRational>(r, &v, &[], lim) else { return Ok(()) };
    let k = r.below(b.len());
    rgmon::past::seasoned(r, rotate(&b, k))
  };
  let b = boundary(&p);
  let q = rat_points(&b);
  ctx.nontrivial(key(&b));
  let want = centroid_of(&q);
  let got = rpt(&p.centroid());
  ctx.eval();
  ctx.count("centroid");
  if p.boundary_slice().windows(2).any(|w| w[0] > w[1]) { ctx.count("centroid_renumbered") }
  ck!(got == want, "centroid of {} (ids {:?}) is ({}, {}), exactly ({}, {})", show(&b), p.boundary_slice(), got[0], got[1], want[0], want[1]);
  // integer coordinates: the truncated quotient
  let l = 1 << (2 + r.below(18));
  let v = simple_poly(r, n, l);
  let Some(b) = Emb::id().all::<BigInt>(&v) else { return Ok(()) };
  let p = { let k = r.below(b.len()); rgmon::past::seasoned(r, rotate(&b, k)) };
  let want = centroid_of(&rat_points(&b));
  let got = p.centroid();
  for c in 0..2 {
    ctx.eval();
    ck!(got.array[c] == want[c].to_integer(), "centroid of {} is {}, exactly ({}, {})", show(&b), show(&[got.clone()]), want[0], want[1]);
  }
  // floating point, where only the final division rounds
  let l = 1 << (1 + r.below(12));
  let v = simple_poly(r, n, l);
  let Some(b) = Emb::id().all::<f64>(&v) else { return Ok(()) };
  let p = { let k = r.below(b.len()); rgmon::past::seasoned(r, rotate(&b, k)) };
  let want = centroid_of(&rat_points(&b));
  let got = p.centroid();
  for c in 0..2 {
    let w = want[c].to_f64().unwrap();
    ctx.eval();
    ck!((got.array[c] - w).abs() <= w.abs() * 1e-15, "centroid of {} is {}, exactly ({}, {})", show(&b), show(&[got.clone()]), want[0], want[1]);
  }
  ctx.count("centroid_float");
  Ok(())
}
/// Hundreds to thousands of vertices.
fn many(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 60, 3000);
  let mut v = if ctx.case % 25 == 0 { ctx.count("huge"); let n = huge_n(r); huge_simple(r, n) } else { big_simple(r, n) };
  if r.chance(1, 2) { v.reverse() }
  let k = r.below(v.len());
  v.rotate_left(k);
  macro_rules! go {
    ($t:ty) => {{
      let b = Emb::id().all::<$t>(&v).unwrap();
      let q = rat_points(&b);
      let p = rgmon::past::seasoned(r, b.clone());
      let want = area_rat(&q);
      ctx.eval();
      ck!(of_big(p.signed_area_2x::<i128>()) == want, "signed_area_2x::<i128> of {} is {}, exactly {}", show(&b), p.signed_area_2x::<i128>(), want);
      ck!(of_big(p.signed_area::<i128>()) == trunc_half(&want), "signed_area::<i128> of {} is {}, twice the area is {}", show(&b), p.signed_area::<i128>(), want);
      ck!(p.orientation() == common::ori(sgn(&area2(&x128(&v)))), "orientation of {} is {:?}", show(&b), p.orientation());
      boxes(ctx, &p, &b, &q)?;
    }};
  }
  match r.below(2) { 0 => go!(i32), _ => go!(i64) }
  let b = Emb::id().all::<f64>(&v).unwrap();
  let p = rgmon::past::seasoned(r, b.clone());
  ctx.eval();
  ck!(of_big(p.signed_area_2x::<f64>() as i128) == area_rat(&rat_points(&b)), "signed_area_2x::<f64> of {} is {}", show(&b), p.signed_area_2x::<f64>());
  if v.len() <= 1200 {
    let b = Emb::id().all::<BigRational>(&v).unwrap();
    let p = rgmon::past::seasoned(r, b.clone());
    let (got, want) = (rpt(&p.centroid()), centroid_of(&rat_points(&b)));
    ctx.eval();
    ck!(got == want, "centroid of {} is ({}, {}), exactly ({}, {})", show(&b), got[0], got[1], want[0], want[1]);
  }
  let Some(p) = big_poly::<f64>(r, n.min(400)) else { return Ok(()) };
  let b = boundary(&p);
  ctx.eval();
  ck!(p.orientation().is_ccw(), "orientation of {} (ids {:?}) is {:?}", show(&b), p.boundary_slice(), p.orientation());
  boxes(ctx, &p, &b, &rat_points(&b))?;
  ctx.count("big");
  ctx.nontrivial(v);
  Ok(())
}
/// All small lattice triangles and quadrilaterals.
fn lattice(ctx: &mut Ctx) -> Res {
  let mut k = ctx.case;
  let g = grid(2);
  let n = 3 + (k % 2) as usize;
  k /= 2;
  let mut v: Vec<V> = vec![];
  for _ in 0..n { v.push(g[(k % 9) as usize]); k /= 9; }
  let b = Emb::id().all::<i32>(&v).unwrap();
  let e = x128(&v);
  let p = rgmon::past::seasoned(&mut ctx.rng.fork(), b.clone());
  ctx.eval();
  ctx.nontrivial(key(&b));
  ctx.count("lattice");
  ck!(p.signed_area_2x::<i64>() as i128 == area2(&e), "signed_area_2x of {} is {}, exactly {}", show(&b), p.signed_area_2x::<i64>(), area2(&e));
  boxes(ctx, &p, &b, &rat_points(&b))?;
  if is_simple(&e) {
    ck!(p.orientation() == common::ori(sgn(&area2(&e))), "orientation of {} is {:?}", show(&b), p.orientation());
    let q = Polygon::new_unchecked(Emb::id().all::<BigRational>(&v).unwrap());
    let w = centroid_of(&rat_points(&b));
    ck!(rpt(&q.centroid()) == w, "centroid of {} is {:?}", show(&b), q.centroid());
  }
  Ok(())
}
fn main() {
  engine::run_main(Property {
    id: "C26",
    rule: "a closed vertex chain, distinct by its vertices in order",
    assumptions: &["a result type is judged when it holds every partial sum of the shoelace formula", "orientation and centroid are judged on simple polygons"],
    families: vec![
      Family { name: "area_i8", quick: 20000, thorough: 800000, f: area_i8 },
      Family { name: "area_i16", quick: 15000, thorough: 600000, f: area_i16 },
      Family { name: "area_i32", quick: 15000, thorough: 600000, f: area_i32 },
      Family { name: "area_i64", quick: 15000, thorough: 600000, f: area_i64 },
      Family { name: "area_other", quick: 15000, thorough: 600000, f: area_other },
      Family { name: "shape", quick: 15000, thorough: 600000, f: fam_shape },
      Family { name: "centroid", quick: 8000, thorough: 400000, f: centroid },
      Family { name: "lattice", quick: 13122, thorough: 13122, f: lattice },
      Family { name: "big", quick: 150, thorough: 6000, f: many },
    ],
    require: &["result:i8", "result:i16", "result:i32", "result:i64", "result:i128", "result:BigInt", "result:BigRational", "result:Ratio<i32>", "result:f64", "boxes", "ccw", "cw", "centroid", "centroid_renumbered", "centroid_float", "lattice", "big", "huge", "negative area", "zero area", "positive area", "odd doubled area"],
  })
}
