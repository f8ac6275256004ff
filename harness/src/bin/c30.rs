use rgeometry::data::{DirectedEdge, DirectedEdge_, DirectedIndexEdge, EndPoint, ILineSegment, IndexEdge, IndexIntersection, LineSegmentView, Point, PointLocation, Polygon, Vector};
use rgeometry::{Orientation, SoS, TotalOrd};
use rgmon::gen::*;
use rgmon::rng::Rg;
use rgmon::sc::Sc;
use rgmon::*;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

fn h<T: Hash>(t: &T) -> u64 {
  let mut s = std::collections::hash_map::DefaultHasher::new();
  t.hash(&mut s);
  s.finish()
}
/// A few points that often share coordinates.
fn pool<S: Sc, const N: usize>(r: &mut Rg, k: usize) -> Vec<Point<S, N>> {
  let mut vals: Vec<S> = (0..1 + r.below(4)).map(|_| if r.chance(1, 2) { raw_value::<S>(r) } else { S::from_i(r.range(-2, 2)).unwrap() }).collect();
  vals.push(S::from_i(0).unwrap());
  if let Some(z) = S::neg_zero() { vals.push(z) }
  let mut out: Vec<Point<S, N>> = vec![];
  for _ in 0..k {
    if !out.is_empty() && r.chance(1, 4) {
      // one coordinate changed
      let mut p = out[r.below(out.len())].clone();
      p.array[r.below(N)] = r.pick(&vals).clone();
      out.push(p);
    } else {
      out.push(Point::new(std::array::from_fn(|_| r.pick(&vals).clone())));
    }
  }
  out
}
fn lex<S: Sc>(a: &[S], b: &[S]) -> Ordering {
  for (x, y) in a.iter().zip(b) {
    let o = x.rat().cmp(&y.rat());
    if o.is_ne() { return o }
  }
  Ordering::Equal
}
fn order<S: Sc, const N: usize>(ctx: &mut Ctx, r: &mut Rg) -> Res {
  let k = 4 + r.below(5);
  let ps = pool::<S, N>(r, k);
  ctx.nontrivial(format!("{:?}", ps));
  for a in &ps {
    for b in &ps {
      let w = lex(&a.array, &b.array);
      ctx.eval();
      ctx.count(match w { Ordering::Less => "less", Ordering::Equal => "equal", _ => "greater" });
      if w.is_eq() && format!("{:?}", a) != format!("{:?}", b) { ctx.count("equal_but_spelled_differently") }
      let got = (a.cmp(b), a.partial_cmp(b), TotalOrd::total_cmp(a, b), (&a).total_cmp(&b));
      ck!(got == (w, Some(w), w, w), "{:?} against {:?} ({}): cmp, partial_cmp, total_cmp are {:?}, exactly {:?}", a, b, S::NAME, got, w);
      let got = [a == b, a != b, a < b, a <= b, a > b, a >= b];
      let want = [w.is_eq(), w.is_ne(), w.is_lt(), w.is_le(), w.is_gt(), w.is_ge()];
      ck!(got == want, "{:?} against {:?} ({}): ==, !=, <, <=, >, >= are {:?}, exactly {:?}", a, b, S::NAME, got, want);
      let (mn, mx) = (TotalOrd::total_min(a.clone(), b.clone()), TotalOrd::total_max(a.clone(), b.clone()));
      let (lo, hi) = if w.is_le() { (a, b) } else { (b, a) };
      ck!(lex(&mn.array, &lo.array).is_eq() && lex(&mx.array, &hi.array).is_eq(), "total_min and total_max of {:?}, {:?} are {:?}, {:?}", a, b, mn, mx);
      // pairs
      let c = &ps[(k + 1) % ps.len()];
      let w2 = w.then(lex(&c.array, &a.array));
      ck!((a, c).total_cmp(&(b, a)) == w2, "pairs ({:?}, {:?}) and ({:?}, {:?}) compare {:?}", a, c, b, a, (a, c).total_cmp(&(b, a)));
      let (i, j) = (r.below(3) as u32, r.below(3) as u32);
      ck!((i, a).total_cmp(&(j, b)) == i.cmp(&j).then(w), "pairs ({}, {:?}) and ({}, {:?}) compare {:?}", i, a, j, b, (i, a).total_cmp(&(j, b)));
      // coordinates
      for i in 0..N {
        let wc = a.array[i].rat().cmp(&b.array[i].rat());
        ck!(a.array[i].total_cmp(&b.array[i]) == wc, "{:?} and {:?} ({}) compare {:?}", a.array[i], b.array[i], S::NAME, a.array[i].total_cmp(&b.array[i]));
        let (mn, mx) = (a.array[i].clone().total_min(b.array[i].clone()), a.array[i].clone().total_max(b.array[i].clone()));
        ck!(mn.rat() == a.array[i].rat().min(b.array[i].rat()) && mx.rat() == a.array[i].rat().max(b.array[i].rat()), "total_min and total_max of {:?}, {:?} are {:?}, {:?}", a.array[i], b.array[i], mn, mx);
      }
    }
  }
  ctx.count(&format!("dimension:{}", N));
  Ok(())
}
fn points<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  match r.below(4) {
    0 => order::<S, 1>(ctx, r),
    1 | 2 => order::<S, 2>(ctx, r),
    _ => order::<S, 4>(ctx, r),
  }
}
fn fam_points(ctx: &mut Ctx) -> Res {
  all_types!(ctx, points)
}
fn hashing<S: Sc + Hash + Ord>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let ps = pool::<S, 2>(r, 12);
  ctx.nontrivial(format!("{:?}", ps));
  let mut ne = 0;
  for a in &ps {
    for b in &ps {
      ctx.eval();
      if lex(&a.array, &b.array).is_eq() {
        ck!(h(a) == h(b), "{:?} and {:?} are equal ({}) but hash differently", a, b, S::NAME);
        if format!("{:?}", a) != format!("{:?}", b) { ctx.count("equal_hash_spelled_differently") }
      } else {
        ne += 1;
        if h(a) == h(b) { ne -= 1 }
      }
      let (va, vb) = (Vector(a.array.clone()), Vector(b.array.clone()));
      let w = lex(&a.array, &b.array);
      ck!(va.cmp(&vb) == w && va.partial_cmp(&vb) == Some(w) && (va == vb) == w.is_eq(), "vectors {:?} and {:?} ({}) compare {:?}", va, vb, S::NAME, va.cmp(&vb));
    }
  }
  ck!(ne > 0 || ps.iter().all(|p| lex(&p.array, &ps[0].array).is_eq()), "all of {:?} hash alike", ps);
  // sets agree
  let mut d: Vec<_> = ps.iter().collect();
  d.sort_by(|a, b| lex(&a.array, &b.array));
  d.dedup_by(|a, b| lex(&a.array, &b.array).is_eq());
  let hs: HashSet<&Point<S>> = ps.iter().collect();
  let bs: BTreeSet<&Point<S>> = ps.iter().collect();
  ck!(hs.len() == d.len() && bs.len() == d.len(), "{:?} ({}): {} different points, hash set {} and ordered set {}", ps, S::NAME, d.len(), hs.len(), bs.len());
  ck!(bs.iter().zip(&d).all(|(a, b)| lex(&a.array, &b.array).is_eq()), "{:?} ({}): ordered set is {:?}", ps, S::NAME, bs);
  ctx.count("hashed");
  if r.chance(1, 8) {
    let p: Polygon<S> = any_poly(r, 14);
    rgmon::past::hash_agrees(ctx, r, &p)?;
    ctx.count("polygon_hashed");
  }
  Ok(())
}
fn fam_hash(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, hashing, [i8, i16, i32, i64, isize, BigInt, BigRational, OF32, OF64, NN32, NN64, Rug])
}
/// The order laws hold for every bit pattern of a float.
fn laws_of<T: TotalOrd + std::fmt::Debug>(ctx: &mut Ctx, v: &[T], same: impl Fn(&T, &T) -> bool) -> Res {
  for a in v {
    ctx.eval();
    ck!(a.total_cmp(a).is_eq(), "{:?} differs from itself", a);
    for b in v {
      let o = a.total_cmp(b);
      ck!(b.total_cmp(a) == o.reverse(), "{:?} against {:?} is {:?} and {:?} the other way", a, b, o, b.total_cmp(a));
      if same(a, b) { ck!(o.is_eq(), "{:?} and {:?} compare {:?}", a, b, o) }
      for c in v {
        if o.is_le() && b.total_cmp(c).is_le() {
          let w = o.then(b.total_cmp(c));
          ck!(a.total_cmp(c) == w, "{:?}, {:?}, {:?} do not compare transitively", a, b, c);
        }
      }
    }
  }
  Ok(())
}
fn laws(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let v: Vec<f64> = (0..8).map(|_| match r.below(4) {
    0 => f64::from_bits(r.u64()),
    1 => *r.pick(&[0.0, -0.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, -5e-324, f64::MAX, f64::MIN]),
    2 => f64::from_bits(0x7ff0_0000_0000_0000 | (r.u64() & 0x8007_ffff_ffff_ffff)),
    _ => r.range(-2, 2) as f64,
  }).collect();
  ctx.nontrivial(format!("{:?}", v));
  if v.iter().any(|x| x.is_nan()) { ctx.count("nan") }
  laws_of(ctx, &v, |a, b| a == b)?;
  let w: Vec<f32> = v.iter().map(|&x| x as f32).collect();
  laws_of(ctx, &w, |a, b| a == b)?;
  let w: Vec<OF64> = v.iter().map(|&x| OrderedFloat(x)).collect();
  laws_of(ctx, &w, |a, b| a == b)?;
  let w: Vec<Point<f64>> = v.windows(2).map(|x| Point::new([x[0], x[1]])).collect();
  laws_of(ctx, &w, |_, _| false)?;
  let o: Vec<Point<OF64>> = w.iter().map(|p| p.map(OrderedFloat)).collect();
  for a in &o {
    for b in &o {
      ck!(a != b || h(a) == h(b), "{:?} and {:?} are equal but hash differently", a, b);
    }
  }
  ctx.count("laws");
  Ok(())
}
/// Equality is that of the parts.
fn eqs<T: PartialEq + std::fmt::Debug, U>(ctx: &mut Ctx, v: &[(T, U)], same: impl Fn(&U, &U) -> bool) -> Res {
  for (a, x) in v {
    for (b, y) in v {
      let w = same(x, y);
      ctx.eval();
      ctx.count(if w { "parts_equal" } else { "parts_differ" });
      ck!((a == b) == w && (a != b) != w, "{:?} and {:?} compare equal: {}, unequal: {}; their parts are equal: {}", a, b, a == b, a != b, w);
    }
  }
  Ok(())
}
/// Any total order that agrees with equality.
fn ords<T: Ord + std::fmt::Debug>(ctx: &mut Ctx, v: &[T]) -> Res {
  for a in v {
    for b in v {
      let o = a.cmp(b);
      ctx.eval();
      ck!(o == b.cmp(a).reverse() && a.partial_cmp(b) == Some(o) && (a == b) == o.is_eq(), "{:?} against {:?} is {:?}, the other way {:?}, partially {:?}, equal {}", a, b, o, b.cmp(a), a.partial_cmp(b), a == b);
      ck!([a < b, a <= b, a > b, a >= b] == [o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()], "{:?} against {:?} is {:?} but <, <=, >, >= are {:?}", a, b, o, [a < b, a <= b, a > b, a >= b]);
      for c in v {
        if o.is_le() && b.cmp(c).is_le() {
          ck!(a.cmp(c) == o.then(b.cmp(c)), "{:?}, {:?}, {:?} do not compare transitively", a, b, c);
        }
      }
    }
  }
  Ok(())
}
/// Values made of points, identifiers and tags.
fn parts<S: Sc + Ord>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let ps = pool::<S, 2>(r, 5);
  ctx.nontrivial(format!("{:?}", ps));
  let at = |a: &Point<S>, b: &Point<S>| lex(&a.array, &b.array).is_eq();
  let tag = |k: bool, p| if k { EndPoint::Inclusive(p) } else { EndPoint::Exclusive(p) };
  // ends of segments
  let mut ends = vec![];
  let mut owned = vec![];
  let mut bare = vec![];
  for p in &ps {
    for k in [false, true] {
      ends.push((tag(k, p), (k, p)));
      owned.push((if k { EndPoint::Inclusive(p.clone()) } else { EndPoint::Exclusive(p.clone()) }, (k, p)));
      let c = &p.array[0];
      bare.push((if k { EndPoint::Inclusive(c.clone()) } else { EndPoint::Exclusive(c.clone()) }, (k, c.rat())));
    }
  }
  eqs(ctx, &ends, |a, b| a.0 == b.0 && at(a.1, b.1))?;
  eqs(ctx, &owned, |a, b| a.0 == b.0 && at(a.1, b.1))?;
  eqs(ctx, &bare, |a, b| a == b)?;
  // segments, kept as given or put in order
  let mut segs = vec![];
  let mut cuts = vec![];
  for _ in 0..10 {
    let (a, b) = (r.below(ends.len()), r.below(ends.len()));
    let ((ea, xa), (eb, xb)) = (ends[a], ends[b]);
    segs.push((LineSegmentView { min: ea, max: eb }, [xa, xb]));
    cuts.push((ILineSegment::Overlap(LineSegmentView { min: ea, max: eb }), Some([xa, xb])));
  }
  // one tag turned round
  for k in 0..3 {
    let mut x = segs[k].1;
    x[k % 2].0 = !x[k % 2].0;
    let s = LineSegmentView { min: tag(x[0].0, x[0].1), max: tag(x[1].0, x[1].1) };
    segs.push((s, x));
    cuts.push((ILineSegment::Overlap(s), Some(x)));
  }
  cuts.push((ILineSegment::Crossing, None));
  let two = |a: &[(bool, &Point<S>); 2], b: &[(bool, &Point<S>); 2]| (0..2).all(|i| a[i].0 == b[i].0 && at(a[i].1, b[i].1));
  eqs(ctx, &segs, two)?;
  eqs(ctx, &cuts, |a, b| match (a, b) { (None, None) => true, (Some(a), Some(b)) => two(a, b), _ => false })?;
  // edges
  let mut es = vec![];
  let mut os = vec![];
  for _ in 0..8 {
    let (a, b) = (r.pick(&ps), r.pick(&ps));
    es.push((DirectedEdge { src: a, dst: b }, (a, b)));
    os.push((DirectedEdge_ { src: a.clone(), dst: b.clone() }, (a, b)));
  }
  eqs(ctx, &es, |a, b| at(a.0, b.0) && at(a.1, b.1))?;
  eqs(ctx, &os, |a, b| at(a.0, b.0) && at(a.1, b.1))?;
  ords(ctx, &es.iter().map(|e| e.0).collect::<Vec<_>>())?;
  ords(ctx, &os.into_iter().map(|e| e.0).collect::<Vec<_>>())?;
  // vertex and edge identifiers
  let n = 3 + r.below(6);
  let p: Polygon<S> = Polygon::new_unchecked((0..n).map(|_| r.pick(&ps).clone()).collect());
  let ids = p.boundary_slice();
  let num = |k: rgeometry::data::PointId| k.usize();
  eqs(ctx, &ids.iter().map(|i| (*i, num(*i))).collect::<Vec<_>>(), |a, b| a == b)?;
  ords(ctx, ids)?;
  for i in ids {
    for j in ids {
      ck!(h(i) == h(j) || i != j, "{:?} and {:?} hash differently", i, j);
      ck!(i.cmp(j) == num(*i).cmp(&num(*j)), "{:?} against {:?}", i, j);
    }
  }
  let mut ie = vec![];
  let mut de = vec![];
  for _ in 0..8 {
    let (a, b) = (*r.pick(ids), *r.pick(ids));
    let k = [num(a).min(num(b)), num(a).max(num(b))];
    ie.push((IndexEdge::new(a, b), k));
    ie.push((IndexEdge::new(b, a), k));
    de.push((DirectedIndexEdge { src: a, dst: b }, [num(a), num(b)]));
    ck!(IndexEdge::from(DirectedIndexEdge { src: a, dst: b }) == IndexEdge::new(b, a), "edge {:?} {:?} without its direction", a, b);
  }
  eqs(ctx, &ie, |a, b| a == b)?;
  eqs(ctx, &de, |a, b| a == b)?;
  ords(ctx, &ie.iter().map(|e| e.0).collect::<Vec<_>>())?;
  ords(ctx, &de.iter().map(|e| e.0).collect::<Vec<_>>())?;
  let mut ii = vec![];
  for _ in 0..8 {
    let (a, b) = (*r.pick(&ie), *r.pick(&ie));
    let k = [a.1.min(b.1), a.1.max(b.1)];
    ii.push((IndexIntersection::new(a.0, b.0), k));
    ii.push((IndexIntersection::new(b.0, a.0), k));
  }
  eqs(ctx, &ii, |a, b| a == b)?;
  ords(ctx, &ii.iter().map(|e| e.0).collect::<Vec<_>>())?;
  // cursors are their places, not their coordinates
  let (c, d): (Vec<_>, Vec<_>) = (p.iter_boundary().collect(), p.iter_boundary().collect());
  for (i, a) in c.iter().enumerate() {
    for (j, b) in d.iter().enumerate() {
      ck!((a == b) == (i == j), "cursors {} and {} of {} vertices equal: {}", i, j, n, a == b);
      let mut b = *b;
      (0..n + i - j.min(i)).for_each(|_| b.move_next());
      ck!((*a == b) == ((j + n + i - j.min(i)) % n == i), "cursor {} and cursor {} moved on by {} of {} vertices equal: {}", i, j, n + i - j.min(i), n, *a == b);
    }
  }
  // kinds
  let o = [Orientation::CounterClockWise, Orientation::ClockWise, Orientation::CoLinear];
  ords(ctx, &o)?;
  let s = [SoS::CounterClockWise, SoS::ClockWise];
  ords(ctx, &s)?;
  let l = [PointLocation::Inside, PointLocation::OnBoundary, PointLocation::Outside];
  ords(ctx, &l)?;
  eqs(ctx, &o.iter().enumerate().map(|(i, x)| (*x, i)).collect::<Vec<_>>(), |a, b| a == b)?;
  eqs(ctx, &s.iter().enumerate().map(|(i, x)| (*x, i)).collect::<Vec<_>>(), |a, b| a == b)?;
  eqs(ctx, &l.iter().enumerate().map(|(i, x)| (*x, i)).collect::<Vec<_>>(), |a, b| a == b)?;
  ctx.count("parts");
  Ok(())
}
fn fam_parts(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, parts, [i8, i16, i32, i64, isize, BigInt, BigRational, OF32, OF64, NN32, NN64, Rug])
}
fn cursors<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let p: Polygon<S> = any_poly(r, 14);
  let q: Polygon<S> = Polygon::new_unchecked(pool::<S, 2>(r, 5));
  let mut cs: Vec<_> = p.iter_boundary().collect();
  ctx.nontrivial(key(&boundary(&p)));
  for a in p.iter_boundary().chain(q.iter_boundary()) {
    for b in p.iter_boundary().chain(q.iter_boundary()) {
      let w = lex(&a.point().array, &b.point().array);
      ctx.eval();
      ck!(a.total_cmp(&b) == w, "cursors at {:?} and {:?} compare {:?}", a.point(), b.point(), a.total_cmp(&b));
    }
    ck!(std::ptr::eq(&*a as &Point<S>, a.point()), "cursor dereferences to another point");
  }
  cs.sort_by(TotalOrd::total_cmp);
  ck!(cs.windows(2).all(|w| lex(&w[0].point().array, &w[1].point().array).is_le()), "sorting the cursors of {}", show(&boundary(&p)));
  ctx.count("cursors");
  Ok(())
}
fn fam_cursors(ctx: &mut Ctx) -> Res {
  all_types!(ctx, cursors)
}
fn same_ring<S: Sc>(a: &[Point<S>], b: &[Point<S>]) -> bool {
  let k = |v: &[Point<S>]| -> Vec<_> { v.iter().map(sc::rpt).collect() };
  ex::is_rotation(&k(a), &k(b))
}
fn equals<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let p: Polygon<S> = match if r.chance(1, 60) { 3 } else { r.below(3) } {
    3 => {
      let n = big_n(r, 30, 600);
      ctx.count("big");
      match big_poly(r, n) { Some(p) => p, None => return Ok(()) }
    }
    0 => any_poly(r, 14),
    // repeated coordinates: matching must not stop at the first equal vertex
    1 => { let n = 1 + r.below(9); Polygon::new_unchecked(pool::<S, 2>(r, n)) }
    _ => {
      let base = pool::<S, 2>(r, 2);
      let n = 2 + r.below(8);
      Polygon::new_unchecked((0..n).map(|_| r.pick(&base).clone()).collect())
    }
  };
  let b = boundary(&p);
  let n = b.len();
  let mut c = b.clone();
  match r.below(8) {
    0 => {}
    1 | 2 => c.rotate_left(r.below(n)),
    3 => { c.rotate_left(r.below(n)); c.reverse() }
    4 => { let (i, j) = (r.below(n), r.below(n)); c.rotate_left(r.below(n)); c.swap(i, j) }
    5 => { c.rotate_left(r.below(n)); let i = r.below(n); c[i].array[r.below(2)] = raw_value::<S>(r) }
    6 => { c.rotate_left(r.below(n)); let i = r.below(n); let x = c[i].clone(); c.insert(i, x) }
    _ => { c.rotate_left(r.below(n)); if n > 1 { c.remove(r.below(n)); } }
  }
  zero_signs(r, &mut c);
  let mut q = rgmon::past::seasoned(r, c);
  if r.chance(1, 3) && S::KIND == sc::Kind::Big {
    // the same boundary with another numbering
    let _ = q.ensure_ccw();
  }
  let c = boundary(&q);
  let w = same_ring(&b, &c);
  ctx.nontrivial((key(&b), key(&c)));
  for (x, y, xs, ys) in [(&p, &q, &b, &c), (&q, &p, &c, &b), (&p, &p, &b, &b)] {
    let w = w || std::ptr::eq(x, y);
    ctx.eval();
    ck!(x.equals(y) == w, "{} equals {} is {}, a rotation: {}", show(xs), show(ys), x.equals(y), w);
  }
  ctx.count(if w { "rotations" } else { "not_rotations" });
  if w && b.iter().zip(&c).any(|(x, y)| sc::rpt(x) != sc::rpt(y)) { ctx.count("proper_rotation") }
  if boundary(&p).iter().collect::<BTreeSet<_>>().len() < n { ctx.count("repeated_vertices") }
  Ok(())
}
fn fam_equals(ctx: &mut Ctx) -> Res {
  all_types!(ctx, equals)
}
fn main() {
  engine::run_main(Property {
    id: "C30",
    rule: "a set of points or a pair of polygons, distinct by value",
    assumptions: &["lexicographic order by value is judged on finite coordinates; for NaN and infinities only the laws of a total order"],
    families: vec![
      Family { name: "points", quick: 24000, thorough: 500000, f: fam_points },
      Family { name: "hashing", quick: 20000, thorough: 400000, f: fam_hash },
      Family { name: "laws", quick: 20000, thorough: 500000, f: laws },
      Family { name: "parts", quick: 6000, thorough: 150000, f: fam_parts },
      Family { name: "cursors", quick: 10000, thorough: 200000, f: fam_cursors },
      Family { name: "equals", quick: 50000, thorough: 1000000, f: fam_equals },
    ],
    require: &["less", "equal", "greater", "equal_but_spelled_differently", "equal_hash_spelled_differently", "dimension:1", "dimension:2", "dimension:4", "hashed", "nan", "laws", "parts", "parts_equal", "parts_differ", "cursors", "rotations", "not_rotations", "proper_rotation", "big", "repeated_vertices"],
  })
}
