//! Runs one call on a long input in a thread with a small stack, compiled
//! without optimisation: a depth of calls that grows with the input ends the
//! process. C34 starts this program and watches how it ends.
//! usage: deep KIND SEED ; prints what it did.
use rand::{Error as RandError, RngCore};
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::polygonization::{new_monotone_polygon, new_star_polygon, resolve_self_intersections, two_opt_moves};
use rgeometry::algorithms::segment_intersections;
use rgeometry::algorithms::triangulation::earclip::{earclip, earclip_hashed};
use rgeometry::algorithms::visibility::naive::get_visibility_polygon;
use rgeometry::data::*;
use rgeometry::data::Transform;
use rgmon::gen::*;
use rgmon::rng::Rg;

/// A stream that starts with many useless words.
struct Late { word: u64, left: usize, then: Rg }
impl RngCore for Late {
  fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
  fn next_u64(&mut self) -> u64 {
    if self.left > 0 { self.left -= 1; self.word } else { self.then.u64() }
  }
  fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8 } }
  fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RandError> { self.fill_bytes(d); Ok(()) }
}
fn points(r: &mut Rg, n: usize) -> (Vec<Point<i64>>, &'static str) {
  let lim = 1i64 << 30;
  let n = n as i64;
  let (v, what): (Vec<V>, _) = match r.below(10) {
    0 => ((0..n).map(|_| [r.range(-lim, lim), r.range(-lim, lim)]).collect(), "random"),
    1 => ((0..n).map(|i| [i, i * i]).collect(), "parabola"),
    2 => ((0..n).rev().map(|i| [i, i * i]).collect(), "parabola backwards"),
    3 => ((0..n).map(|i| [i, -i * i]).collect(), "cap"),
    4 => ((0..n).map(|i| [i, 3 * i]).collect(), "line"),
    5 => ((0..n).map(|_| [7, -3]).collect(), "one point"),
    6 => ((0..n).map(|i| [i % 300, i / 300]).collect(), "grid"),
    7 => ((0..n).map(|i| [i, if i == n / 2 { 1 } else { 0 }]).collect(), "line and one point"),
    8 => (big_convex(r, n as usize), "convex"),
    _ => ((0..n).map(|i| if i < n - 3 { [1 + i % 5, 1 + i % 7] } else { [[0, 0], [lim, 0], [0, lim]][(i - n + 3) as usize] }).collect(), "in a triangle"),
  };
  let mut p: Vec<Point<i64>> = v.into_iter().map(Point::new).collect();
  match r.below(3) {
    0 => r.shuffle(&mut p),
    1 => p.sort(),
    _ => {}
  }
  (p, what)
}
fn simple(r: &mut Rg, n: usize) -> Polygon<i64> {
  let v: Vec<Point<i64>> = huge_simple(r, n).into_iter().map(Point::new).collect();
  build_huge(r, &v)
}
fn go(kind: &str, r: &mut Rg) -> String {
  let big = 60_000 + r.below(60_000);
  let mid = 1500 + r.below(1500);
  match kind {
    "hull" => {
      let (p, w) = points(r, big);
      let h = if r.chance(1, 2) { graham_scan::convex_hull(p) } else { rgeometry::algorithms::convex_hull(p) };
      format!("{} points {}: hull {:?}", big, w, h.map(|h| h.iter().count()))
    }
    "hull_f64" => {
      let (p, w) = points(r, big / 6);
      let p: Vec<Point<f64>> = p.iter().map(|p| Point::new([p.array[0] as f64, p.array[1] as f64])).collect();
      format!("{} points {}: hull {:?}", big / 6, w, graham_scan::convex_hull(p).map(|h| h.iter().count()))
    }
    "gift" => {
      // few hull vertices, or few points
      let n = big;
      let (mut p, w) = points(r, n);
      if matches!(w, "parabola" | "parabola backwards" | "cap" | "convex") { p.truncate(mid) }
      format!("{} points {}: hull {:?}", p.len(), w, gift_wrapping::convex_hull(p).map(|h| h.iter().count()))
    }
    "melkman" => {
      let p = simple(r, big);
      format!("{} vertices: hull {}", p.iter().count(), melkman::convex_hull(&p).iter().count())
    }
    "walks" => {
      let mut p = simple(r, big);
      let ids = p.boundary_slice().to_vec();
      let q = Point::new([r.range(-100, 100), r.range(-100, 100)]);
      let l = p.locate(&q);
      let a: i128 = p.signed_area_2x();
      let b = p.bounding_box();
      let c = p.cursor(ids[r.below(ids.len())]);
      let steps = c.to(std::ops::Bound::Unbounded).count();
      let ear = c.is_ear();
      let same = p.equals(&p.clone());
      let mono = p.is_monotone(&Vector([1, 0]));
      let last = p.iter_boundary_edges().last().is_some() as usize + p.iter().last().is_some() as usize;
      let f = p.clone().map(|c| c as f64);
      let g = f.centroid();
      let t = Transform::translate(Vector([1i64, 2]));
      let q = &t * &p;
      let n = f.clone().map(ordered_float::OrderedFloat).normalize();
      let m = q.map_points(|p| p).map(|c| c as f64);
      p.ensure_ccw().ok();
      format!("{} vertices: {:?} {} {:?} {} {} {} {} {:?} {} {} {}", ids.len(), l, a, b, steps, ear, same, mono, g, last, n.iter().count(), m.iter().count())
    }
    "convex" => {
      let v = big_convex(r, big);
      let p = PolygonConvex::new_unchecked(Polygon::new_unchecked(v.iter().map(|v| Point::new(*v)).collect::<Vec<_>>()));
      let mut s = String::new();
      for _ in 0..50 { let q = *r.pick(&v); s += &format!("{:?} ", p.locate(&Point::new([q[0] / 2, q[1] / 2]))) }
      s
    }
    "random_convex" => format!("{:?}", PolygonConvex::<i64>::random(big / 2, r).iter().count()),
    "late_convex" => {
      // thousands of attempts give points on one line
      let mut h = Late { word: 0, left: 300_000, then: r.fork() };
      format!("{:?}", PolygonConvex::<i32>::random(3, &mut h).iter().count())
    }
    "late_sample" => {
      // thousands of attempts miss the triangle
      let (a, b, c) = (Point::new([0i32, 1000]), Point::new([1000, 1000]), Point::new([1000, 0]));
      let t = TriangleView::new_ccw([&a, &b, &c]);
      let mut h = Late { word: 0, left: 100_000, then: r.fork() };
      format!("{:?}", t.rejection_sampling(&mut h))
    }
    "sort_around" => {
      let (p, w) = points(r, big);
      let mut v: Vec<Vector<i64, 2>> = p.into_iter().map(|p| Vector(p.array)).collect();
      Vector::sort_around(&mut v);
      format!("{} vectors {}", v.len(), w)
    }
    "colinear" => {
      let (p, w) = points(r, big);
      format!("{} points {}: {}", p.len(), w, Point::all_colinear(&p))
    }
    "sum" => {
      let (p, _) = points(r, big);
      let v: Vec<Vector<f64, 2>> = p.iter().map(|p| Vector([p.array[0] as f64, p.array[1] as f64])).collect();
      format!("{:?} {:?}", v.clone().into_iter().sum::<Vector<f64, 2>>(), v.into_iter().rev().sum::<Vector<f64, 2>>())
    }
    "set" => {
      let n = 200;
      let g = Polygon::new_unchecked((0..n as i64).map(|i| Point::new([i, i * i])).collect::<Vec<_>>());
      let ids = g.boundary_slice().to_vec();
      let e = |i: usize| IndexEdge::new(ids[i % n], ids[(i + 1) % n]);
      let mut s = IndexIntersectionSet::new(n);
      let mut k = 0;
      for i in 0..n { for j in 0..i { s.push(IndexIntersection::new(e(i), e(j))); k += 1 } }
      let picks = (0..1000).filter(|_| s.random(r).is_some()).count();
      let all = s.iter().count();
      for i in 0..n { if i % 3 != 0 { s.remove_all(e(i)) } }
      let left = s.iter().count();
      for i in 0..n { s.remove_all(e(i)) }
      format!("{} inserted, {} {} {} {}", k, picks, all, left, s.iter().count())
    }
    "validate" => {
      let n = mid;
      let p = simple(r, n);
      let v: Vec<Point<i64>> = boundary(&p);
      let k = Polygon::new(v);
      format!("{} vertices {:?} {:?}", n, p.validate(), k.is_ok())
    }
    "tangled" => {
      let (p, w) = points(r, mid);
      format!("{} points {} {:?} {:?}", p.len(), w, Polygon::new(p.clone()).is_ok(), Polygon::new_unchecked(p).validate_weakly().is_ok())
    }
    "segments" => {
      let (p, w) = points(r, mid);
      let s: Vec<LineSegment<i64>> = p.windows(2).map(|w| LineSegment::from(w[0]..w[1])).collect();
      let n = segment_intersections(&s).count();
      let m = segment_intersections(&s).take(5000).last().is_some();
      format!("{} segments {} {} {}", s.len(), w, n, m)
    }
    "earclip" => {
      let p = simple(r, mid);
      format!("{} vertices {} {}", p.iter().count(), earclip(&p).count(), p.triangulate().count())
    }
    "earclip_hashed" => {
      let p = simple(r, 4 * mid);
      format!("{} vertices {}", p.iter().count(), earclip_hashed(&p).count())
    }
    "monotone" => {
      let (p, w) = points(r, mid);
      let d = Vector([r.range(-3, 3), r.range(1, 3)]);
      format!("{} points {} {:?}", p.len(), w, new_monotone_polygon(p, &d).map(|p| p.iter().count()))
    }
    "star" => {
      let (p, w) = points(r, mid);
      let c = Point::new([r.range(-5, 5), r.range(-5, 5)]);
      format!("{} points {} {:?}", p.len(), w, new_star_polygon(p, &c).map(|p| p.iter().count()))
    }
    "two_opt" => {
      // thousands of untangling steps
      let n = 80 + r.below(120);
      let mut p: Vec<Point<i64>> = match r.below(3) {
        0 => (0..n as i64).map(|i| Point::new([i % 12, i / 12])).collect(),
        1 => (0..n as i64 - 1).map(|i| Point::new([i, 0])).chain([Point::new([3, 1])]).collect(),
        _ => (0..n).map(|_| Point::new([r.range(-1000, 1000), r.range(-1000, 1000)])).collect(),
      };
      r.shuffle(&mut p);
      let mut q = Polygon::new_unchecked(p.clone());
      let a = resolve_self_intersections(&mut q, r).is_ok();
      format!("{} points {} {:?}", n, a, two_opt_moves(p, r).map(|p| p.iter().count()))
    }
    "visibility" => {
      let v = big_convex(r, 300);
      let p: Polygon<f64> = Polygon::new_unchecked(v.iter().map(|v| Point::new([v[0] as f64, v[1] as f64])).collect());
      format!("{:?}", std::panic::catch_unwind(|| get_visibility_polygon(&Point::new([0.0, 0.0]), &p).map(|p| p.iter().count())).is_ok())
    }
    _ => { eprintln!("unknown kind {}", kind); std::process::exit(3) }
  }
}
fn main() {
  let a: Vec<String> = std::env::args().collect();
  let (kind, seed) = (a[1].clone(), a[2].parse::<u64>().unwrap());
  let stack = 1024 * a.get(3).map_or(192, |s| s.parse::<usize>().unwrap());
  unsafe {
    // a hang ends here
    let l = libc::rlimit { rlim_cur: 120, rlim_max: 120 };
    libc::setrlimit(libc::RLIMIT_CPU, &l);
    let l = libc::rlimit { rlim_cur: 2 << 30, rlim_max: 2 << 30 };
    libc::setrlimit(libc::RLIMIT_AS, &l);
    let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &l);
  }
  // every kind gets its own stream
  let mix = kind.bytes().fold(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15), |a, b| a.rotate_left(7) ^ b as u64);
  let h = std::thread::Builder::new().stack_size(stack).spawn(move || go(&kind, &mut Rg::new(mix))).unwrap();
  match h.join() {
    Ok(s) => println!("done {}", s),
    Err(_) => std::process::exit(101),
  }
}
