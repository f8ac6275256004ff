//! A catalogue of calls over the whole public surface, each reduced to a value
//! that can be compared between repetitions, threads and coordinate types.
use crate::rng::Hostile;
use crate::rng::Rg;
use crate::sc::{rpt, Sc};
use num_rational::BigRational;
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::polygonization::{new_monotone_polygon, new_star_polygon, resolve_self_intersections, two_opt_moves};
use rgeometry::algorithms::segment_intersections;
use rgeometry::algorithms::triangulation::earclip::earclip;
use rgeometry::data::*;
use rgeometry::{Intersects, PolygonScalar, TotalOrd};
use crate::gen::*;
use rgeometry::algorithms::visibility::naive::get_visibility_polygon;
use std::fmt::Debug;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Tok {
  P([BigRational; 2]),
  S(String),
}
pub type Out = Vec<Tok>;

pub fn same(a: &Out, b: &Out, f: &dyn Fn(&[BigRational; 2]) -> [BigRational; 2]) -> bool {
  a.len() == b.len()
    && a.iter().zip(b).all(|(x, y)| match (x, y) {
      (Tok::P(p), Tok::P(q)) => f(p) == *q,
      (Tok::S(s), Tok::S(t)) => s == t,
      _ => false,
    })
}
pub fn say(a: &Out) -> String {
  a.iter()
    .map(|t| match t {
      Tok::P(p) => format!("({}, {})", p[0], p[1]),
      Tok::S(s) => s.clone(),
    })
    .collect::<Vec<_>>()
    .join(" ")
}

/// Arguments for every operation of the catalogue.
pub struct Input<S: Sc> {
  pub pts: Vec<Point<S>>,
  /// simple, counter-clockwise
  pub poly: Polygon<S>,
  /// strictly convex
  pub convex: PolygonConvex<S>,
  pub q: Vec<Point<S>>,
  pub dir: [i8; 2],
}

/// How many points the expensive calls get.
fn cap<S: Sc>(i: &Input<S>) -> usize {
  if i.pts.len() >= 60 { 40 } else { 14 }
}

const REP: usize = if cfg!(miri) { 2 } else { 20 };

pub const OPS: &[&str] = &[
  "orient", "all_colinear", "cmp_distance", "ccw_cmp", "along", "sort_around", "graham", "gift", "two_opt", "resolve", "monotone", "star",
  "new", "validate", "locate", "triangulate", "earclip", "earclip_hashed", "orientation", "bounding_box", "is_monotone", "melkman", "ears", "cursors",
  "convex_locate", "convex_validate", "triangle", "contains", "intersect", "edge_intersect", "rays", "intersections", "order", "equals", "isect_set", "ensure_ccw",
];
/// Operations whose output is a fresh value rather than a selection of inputs;
/// deterministic, but not comparable across types.
pub const EXTRA: &[&str] = &["centroid", "area", "visibility", "lines", "arith", "rejection", "random_convex", "transform", "float", "zero"];

fn s(v: impl Debug) -> Tok {
  Tok::S(format!("{:?}", v))
}
fn p<S: Sc>(v: &Point<S>) -> Tok {
  if cfg!(miri) {
    return Tok::S(format!("{:?}", v)); // rationals are slow to interpret
  }
  Tok::P(rpt(v))
}
fn ring<S: Sc>(v: &Polygon<S>, out: &mut Out) {
  for c in v.iter_boundary() {
    out.push(p(c.point()));
  }
  out.push(s(v.boundary_slice()));
}
fn ring_or<S: Sc, E: Debug>(v: Result<Polygon<S>, E>, out: &mut Out) {
  match v {
    Ok(v) => ring(&v, out),
    Err(e) => out.push(s(e)),
  }
}
fn iseg<S: Sc>(v: Option<ILineSegment<'_, S>>, out: &mut Out) {
  match v {
    None => out.push(Tok::S("apart".into())),
    Some(ILineSegment::Crossing) => out.push(Tok::S("crossing".into())),
    Some(ILineSegment::Overlap(o)) => {
      out.push(Tok::S(format!("overlap {} {}", o.min.is_inclusive(), o.max.is_inclusive())));
      out.push(p(*o.min.inner()));
      out.push(p(*o.max.inner()));
    }
  }
}
fn end<'a, S: Sc>(v: &'a Point<S>, inc: bool) -> EndPoint<&'a Point<S>> {
  if inc {
    EndPoint::Inclusive(v)
  } else {
    EndPoint::Exclusive(v)
  }
}
fn at<S: Sc>(i: &Input<S>, k: usize) -> &Point<S> {
  let n = i.pts.len();
  if k % 3 == 0 || n == 0 {
    &i.q[k / 3 % i.q.len()]
  } else {
    &i.pts[k % n]
  }
}

pub fn run<S: Opx>(op: &str, i: &Input<S>, seed: u64) -> Out {
  let mut o: Out = vec![];
  let mut r = Rg::new(seed);
  let dir = Vector([S::from_i(i.dir[0] as i64).unwrap(), S::from_i(i.dir[1] as i64).unwrap()]);
  let mut pick = || -> &Point<S> { at(i, r.below(1000)) };
  match op {
    "orient" => {
      for _ in 0..REP {
        let (a, b, c) = (pick(), pick(), pick());
        o.push(s(Point::orient(a, b, c)));
      }
    }
    "all_colinear" => {
      for k in 0..i.pts.len() {
        o.push(s(Point::all_colinear(&i.pts[k..])));
      }
    }
    "cmp_distance" => {
      for _ in 0..REP {
        let (a, b, c) = (pick(), pick(), pick());
        o.push(s(a.cmp_distance_to(b, c)));
      }
    }
    "ccw_cmp" => {
      for _ in 0..REP {
        let (a, b, c) = (pick(), pick(), pick());
        o.push(s(a.ccw_cmp_around(b, c)));
        if i.dir != [0, 0] {
          o.push(s(a.ccw_cmp_around_with(&dir, b, c)));
        }
      }
    }
    "along" => {
      for _ in 0..REP {
        let (a, b) = (pick(), pick());
        o.push(s((
          Point::orient_along_vector(a, &dir, b),
          Point::orient_along_perp_vector(a, &dir, b),
          Point::orient_along_direction(a, Direction::Vector(&dir), b),
          Point::orient_along_direction(a, Direction::Through(at(i, 7)), b),
          dir.cmp_along(a, b),
        )));
      }
    }
    "sort_around" => {
      // positions of the vectors after sorting; ties by value only
      let mut v: Vec<Vector<S, 2>> = (0..if cfg!(miri) { 4 } else { 12 }).map(|k| Vector([S::from_i((k * 5 % 7) - 3).unwrap(), S::from_i((k * 3 % 11) - 5).unwrap()])).collect();
      Vector::sort_around(&mut v);
      for x in v {
        o.push(Tok::S(format!("{} {}", x.0[0].rat(), x.0[1].rat())));
      }
    }
    "graham" => ring_or(graham_scan::convex_hull(i.pts.clone()).map(Polygon::from), &mut o),
    "gift" => ring_or(gift_wrapping::convex_hull(i.pts.clone()).map(Polygon::from), &mut o),
    "two_opt" => {
      let mut v = i.pts.clone();
      v.truncate(cap(i));
      let mut g = Hostile::Fair(Rg::new(seed));
      ring_or(two_opt_moves(v, &mut g), &mut o);
      // how much of the stream was used is part of the result
      o.push(s(rand::RngCore::next_u64(&mut g)));
    }
    "resolve" => {
      let mut v: Vec<Point<S>> = i.pts.iter().take(cap(i)).cloned().collect();
      v.sort_by(TotalOrd::total_cmp);
      v.dedup();
      Rg::new(seed ^ 3).shuffle(&mut v);
      if v.len() >= 3 && !Point::all_colinear(&v) {
        let mut g = Polygon::new_unchecked(v);
        let e = resolve_self_intersections(&mut g, &mut Rg::new(seed));
        o.push(s(e));
        ring(&g, &mut o);
      }
    }
    "monotone" => ring_or(new_monotone_polygon(i.pts.clone(), &dir), &mut o),
    "star" => {
      let c = pick();
      ring_or(new_star_polygon(i.pts.clone(), c), &mut o)
    }
    "new" => ring_or(Polygon::new(i.pts.clone()), &mut o),
    "validate" => {
      o.push(s((i.poly.validate(), i.poly.validate_weakly())));
      if i.pts.len() >= 3 {
        let g = Polygon::new_unchecked(i.pts.clone());
        o.push(s((g.validate(), g.validate_weakly(), PolygonConvex::new_unchecked(g).validate())));
      }
    }
    "locate" => {
      for k in 0..i.q.len() {
        o.push(s(i.poly.locate(&i.q[k])));
      }
      for k in 0..i.pts.len() {
        o.push(s(i.poly.locate(&i.pts[k])));
      }
    }
    "triangulate" => {
      for (a, b, c) in i.poly.triangulate() {
        o.push(s((a.point_id(), b.point_id(), c.point_id())));
        o.push(p(a.point()));
      }
    }
    "earclip" => {
      for t in earclip(&i.poly) {
        o.push(s(t));
      }
    }
    "earclip_hashed" => {
      if let Some(v) = S::hashed(&i.poly) {
        for t in v {
          o.push(s(t));
        }
      } else {
        for t in earclip(&i.poly) {
          o.push(s(t));
        }
      }
    }
    "orientation" => o.push(s(i.poly.orientation())),
    "bounding_box" => {
      let (a, b) = i.poly.bounding_box();
      o.push(p(&a));
      o.push(p(&b));
    }
    "is_monotone" => o.push(s((i.poly.is_monotone(&dir), i.convex.is_monotone(&dir)))),
    "melkman" => ring(melkman::convex_hull(&i.poly).polygon(), &mut o),
    "ears" => {
      for c in i.poly.iter_boundary() {
        o.push(s((c.is_ear(), c.orientation(), c.is_colinear())));
      }
    }
    "cursors" => {
      for c in i.poly.iter_boundary().rev() {
        o.push(s((c.point_id(), c.next().point_id(), c.prev().point_id())));
        let e = i.poly.direct(IndexEdge::new(c.point_id(), c.next().point_id()));
        o.push(s(e));
      }
      for e in i.poly.iter_boundary_edges() {
        o.push(p(e.src));
      }
    }
    "convex_locate" => {
      for x in i.q.iter().chain(&i.pts) {
        o.push(s(i.convex.locate(x)));
      }
    }
    "convex_validate" => o.push(s(i.convex.validate())),
    "triangle" => {
      for _ in 0..8 {
        let (a, b, c) = (pick(), pick(), pick());
        let t = TriangleView::new_unchecked([a, b, c]);
        o.push(s((t.orientation(), t.validate().is_ok(), TriangleView::new([a, b, c]).is_ok())));
        if !t.orientation().is_colinear() {
          let u = TriangleView::new_ccw([a, b, c]);
          for x in &i.q {
            o.push(s(u.locate(x)));
          }
          let t = Triangle::new_ccw([a.clone(), b.clone(), c.clone()]);
          o.push(s((t.locate(a), t.validate())));
          let (lo, hi) = u.bounding_box();
          o.push(p(&lo));
          o.push(p(&hi));
        }
      }
    }
    "contains" => {
      for k in 0..REP {
        let (a, b, c) = (pick(), pick(), pick());
        let v = LineSegmentView::new(end(a, k % 2 == 0), end(b, k % 3 == 0));
        o.push(s(v.contains(c)));
        let l: LineSegment<S> = (a.clone()..b.clone()).into();
        o.push(s((l.contains(c), l.contains(a))));
        o.push(s(DirectedEdge { src: a, dst: b }.contains(c)));
      }
    }
    "intersect" => {
      for k in 0..REP {
        let (a, b, c, d) = (pick(), pick(), pick(), pick());
        let v = LineSegmentView::new(end(a, k % 2 == 0), end(b, k % 3 == 0));
        let w = LineSegmentView::new(end(c, k % 5 < 3), end(d, k % 7 < 3));
        iseg(v.intersect(w), &mut o);
      }
    }
    "edge_intersect" => {
      let es: Vec<DirectedEdge<'_, S>> = i.poly.iter_boundary_edges().take(8).collect();
      for a in &es {
        for b in &es {
          match a.intersect(*b) {
            None => o.push(Tok::S("apart".into())),
            Some(x) => iseg(Some(x), &mut o),
          }
        }
      }
    }
    "rays" => {
      for _ in 0..REP {
        let (a, b, c, d) = (pick(), pick(), pick(), pick());
        let h = HalfLineSoS::new_through(a, b);
        let e = DirectedEdge { src: c, dst: d };
        o.push(Tok::S(format!("{:?}", (&h).intersect(e))));
        let h = HalfLineSoS::new_directed(a, &dir);
        o.push(Tok::S(format!("{:?}", (&h).intersect(e))));
        let l: LineSoS<S> = Line::new_through(a, b).into();
        o.push(Tok::S(format!("{:?}", (&l).intersect(e).is_some())));
      }
    }
    "intersections" => {
      let n = i.pts.len().min(12);
      let g = Polygon::new_unchecked(i.pts[..n].to_vec());
      let es: Vec<DirectedEdge<'_, S>> = g.iter_boundary_edges().collect();
      for (a, b) in segment_intersections(&es) {
        o.push(p(a.src));
        o.push(p(a.dst));
        o.push(p(b.src));
        o.push(p(b.dst));
      }
    }
    "order" => {
      for _ in 0..REP {
        let (a, b) = (pick(), pick());
        o.push(s((a.cmp(b), a == b, a.total_cmp(b))));
      }
      let mut v = i.pts.clone();
      v.sort();
      for x in &v {
        o.push(p(x));
      }
    }
    "equals" => {
      let mut v: Vec<Point<S>> = i.poly.iter_boundary().map(|c| c.point().clone()).collect();
      let n = v.len();
      v.rotate_left(seed as usize % n);
      let g = Polygon::new_unchecked(v.clone());
      v.reverse();
      let h = Polygon::new_unchecked(v);
      o.push(s((g.equals(&i.poly), h.equals(&i.poly), i.poly.equals(&i.poly))));
    }
    "isect_set" => {
      let ids = i.poly.boundary_slice();
      let n = ids.len();
      let mut set = IndexIntersectionSet::new(n);
      for _ in 0..10 {
        let (a, b) = (r.below(n), r.below(n));
        if a != b {
          set.push(IndexIntersection::new(IndexEdge::new(ids[a], ids[(a + 1) % n]), IndexEdge::new(ids[b], ids[(b + 1) % n])));
        }
      }
      o.push(s(set.iter().collect::<Vec<_>>()));
      for _ in 0..4 {
        o.push(s(set.random(&mut r)));
        let a = r.below(n);
        set.remove_all(IndexEdge::new(ids[a], ids[(a + 1) % n]));
      }
      o.push(s(set.iter().collect::<Vec<_>>()));
    }
    "ensure_ccw" => {
      let mut v: Vec<Point<S>> = i.poly.iter_boundary().map(|c| c.point().clone()).collect();
      v.reverse();
      let mut g = Polygon::new_unchecked(v);
      o.push(s(g.ensure_ccw()));
      ring(&g, &mut o);
    }
    // --- not comparable across types
    "arith" => {
      let (a, b) = (&i.q[0], &i.pts[0]);
      if let (Some(x), Some(y)) = (a.array[0].small(), b.array[0].small()) {
        if let (Some(u), Some(v)) = (a.array[1].small(), b.array[1].small()) {
          let fits = |v: i64| v > S::MIN / 2 && v < S::MAX / 2;
          if [x, y, u, v].iter().all(|&v| fits(v)) {
            let d = a - b;
            o.push(p(&(b + &d)));
            o.push(p(&Point::from(d.clone() + d)));
          }
        }
      }
      o.push(p(&Point::from(a.as_vec().clone())));
    }
    "zero" => o.push(p(&Point::<S>::zero())),
    _ => S::extra(op, i, seed, &mut o),
  }
  o
}

// --- operations that only some types offer ------------------------------------------

pub trait Opx: Sc {
  fn hashed(_p: &Polygon<Self>) -> Option<Vec<(PointId, PointId, PointId)>> {
    None
  }
  fn extra(_op: &str, _i: &Input<Self>, _seed: u64, _o: &mut Out) {}
}
/// Small enough for arithmetic in a narrow type.
fn tiny<S: Sc>(i: &Input<S>) -> bool {
  let m = match S::KIND {
    crate::sc::Kind::Fixed => (((S::MAX as f64).sqrt() as i64) / 40).max(3),
    _ => 1 << 20,
  };
  i.poly.iter_boundary().all(|c| c.point().array.iter().all(|v| v.small().is_some_and(|v| v.abs() <= m)))
}
macro_rules! opx_int {
  ($($t:ty, $z:expr);* $(;)?) => {$(
    impl Opx for $t {
      fn hashed(p: &Polygon<Self>) -> Option<Vec<(PointId, PointId, PointId)>> {
        $z(p)
      }
      fn extra(op: &str, i: &Input<Self>, seed: u64, o: &mut Out) {
        let mut r = Rg::new(seed);
        match op {
          "random_convex" => ring(PolygonConvex::<$t>::random(3 + seed as usize % 30, &mut r).polygon(), o),
          "rejection" => {
            let v = [Point::new([0, 0]), Point::new([5, 1]), Point::new([2, 5])];
            for _ in 0..4 {
              o.push(p(&TriangleView::new_unchecked([&v[0], &v[1], &v[2]]).rejection_sampling(&mut r)));
            }
          }
          "area" if tiny(i) => {
            o.push(s((i.poly.signed_area_2x::<$t>(), i.poly.signed_area::<$t>())));
          }
          _ => {}
        }
      }
    }
  )*};
}
fn no<S>(_p: &Polygon<S>) -> Option<Vec<(PointId, PointId, PointId)>> {
  None
}
macro_rules! zh {
  () => {
    |q: &Polygon<Self>| Some(rgeometry::algorithms::triangulation::earclip::earclip_hashed(q).collect())
  };
}
opx_int!(i8, zh!(); i16, no; i32, no; i64, zh!(); isize, no);

macro_rules! opx_field {
  ($($t:ty, $z:expr);* $(;)?) => {$(
    impl Opx for $t {
      fn hashed(p: &Polygon<Self>) -> Option<Vec<(PointId, PointId, PointId)>> {
        $z(p)
      }
      fn extra(op: &str, i: &Input<Self>, _seed: u64, o: &mut Out) {
        let show = |v: &Point<$t>| Tok::S(format!("{:?}", v));
        match op {
          "centroid" => o.push(show(&i.poly.centroid())),
          "area" => o.push(s((i.poly.signed_area_2x::<$t>(), i.poly.signed_area::<$t>()))),
          "visibility" => {
            for q in i.q.iter().chain(&i.pts).take(if cfg!(miri) { 1 } else { 6 }) {
              match get_visibility_polygon(q, &i.poly) {
                None => o.push(Tok::S("none".into())),
                Some(g) => {
                  for c in g.iter_boundary() {
                    o.push(show(c.point()));
                  }
                }
              }
            }
          }
          "lines" => {
            let v = &i.pts;
            if v.len() >= 4 {
              let l = Line::new_through(&v[0], &v[1]);
              let m = Line::new_through(&v[2], &v[3]);
              o.push(s(l.intersection_point(&m)));
            }
          }
          "transform" => {
            let one: $t = <$t>::from_constant(1);
            let two: $t = <$t>::from_constant(2);
            let t = Transform::translate(Vector([one.clone(), two.clone()])) * Transform::scale(Vector([two, one]));
            for c in (t.clone() * i.poly.clone()).iter_boundary() {
              o.push(show(c.point()));
            }
            o.push(s(t * i.pts[0].clone()));
          }
          _ => {}
        }
      }
    }
  )*};
}
opx_field!(f32, no; f64, zh!(); BigRational, no; crate::OF32, no; crate::OF64, no);
impl Opx for crate::NN32 {}
impl Opx for crate::NN64 {}
impl Opx for num_bigint::BigInt {}
#[cfg(feature = "rug")]
impl Opx for crate::Rug {}

// --- inputs ---------------------------------------------------------------------------

/// The arguments on the integer lattice, before placing them in a type.
#[derive(Clone, Debug)]
pub struct Plan {
  pub pts: Vec<V>,
  pub poly: Vec<V>,
  pub convex: Vec<V>,
  pub q: Vec<V>,
  pub dir: [i8; 2],
  /// 0: as is, 1: through `Polygon::new` of the reversed list, 2: untangled
  pub via: usize,
  pub shuffle: u64,
}
pub fn plan(r: &mut Rg, lim: i64, nmax: usize) -> Plan {
  let n = 3 + r.below(nmax.max(4) - 3);
  let poly = simple_poly(r, n, lim);
  let convex = convex_poly(r, n, lim);
  let m = 3 + r.below(nmax.max(4) - 3);
  let mut pts = point_set(r, m, lim);
  if r.chance(1, 4) {
    for v in &poly {
      pts.push(*v);
    }
  }
  let mut q: Vec<V> = (0..4).map(|_| query(r, &poly, lim)).collect();
  q.push(query(r, &convex, lim));
  q.push(pts[0]);
  let mut dir = [0i8; 2];
  while dir == [0, 0] {
    dir = [r.range(-3, 3) as i8, r.range(-3, 3) as i8];
  }
  Plan { pts, poly, convex, q, dir, via: r.below(3), shuffle: r.u64() }
}
impl Plan {
  /// None if the type cannot hold the placed points.
  pub fn put<S: Sc>(&self, e: &Emb) -> Option<Input<S>> {
    let poly = e.all::<S>(&self.poly)?;
    let poly = match self.via {
      0 => Polygon::new_unchecked(poly),
      1 => {
        let mut v = poly.clone();
        v.reverse();
        Polygon::new(v).ok()?
      }
      _ => {
        // numbering unrelated to boundary order
        let mut v = poly;
        Rg::new(self.shuffle).shuffle(&mut v);
        two_opt_moves(v, &mut Rg::new(self.shuffle)).ok()?
      }
    };
    Some(Input {
      pts: e.all::<S>(&self.pts)?,
      poly,
      convex: PolygonConvex::new_unchecked(Polygon::new_unchecked(e.all::<S>(&self.convex)?)),
      q: e.all::<S>(&self.q)?,
      dir: self.dir,
    })
  }
  pub fn show(&self) -> String {
    format!("{:?}", self)
  }
  /// One line of numbers, so that a plan can be made by another process.
  pub fn write(&self) -> String {
    let mut o: Vec<String> = vec![];
    for l in [&self.pts, &self.poly, &self.convex, &self.q] {
      o.push(l.len().to_string());
      o.extend(l.iter().flatten().map(|v| v.to_string()));
    }
    o.extend([self.dir[0].to_string(), self.dir[1].to_string(), self.via.to_string(), (self.shuffle >> 1).to_string()]);
    o.join(" ")
  }
  pub fn read(s: &str) -> Plan {
    let mut it = s.split_ascii_whitespace().map(|v| v.parse::<i64>().unwrap());
    let list = |it: &mut dyn Iterator<Item = i64>| -> Vec<V> {
      let n = it.next().unwrap();
      (0..n).map(|_| [it.next().unwrap(), it.next().unwrap()]).collect()
    };
    let (pts, poly, convex, q) = (list(&mut it), list(&mut it), list(&mut it), list(&mut it));
    let dir = [it.next().unwrap() as i8, it.next().unwrap() as i8];
    Plan { pts, poly, convex, q, dir, via: it.next().unwrap() as usize, shuffle: it.next().unwrap() as u64 }
  }
}
impl<S: Sc> Input<S> {
  /// Every stored coordinate and identifier, in order.
  pub fn print(&self) -> Out {
    let mut o = vec![];
    for v in self.pts.iter().chain(&self.q) {
      o.push(p(v));
      o.push(s(v));
    }
    for g in [&self.poly, self.convex.polygon()] {
      for v in g.iter() {
        o.push(p(v));
        o.push(s(v));
      }
      ring(g, &mut o);
    }
    o
  }
}
