//! Workloads over the safe API, to be run under an interpreter or a sanitizer
//! that judges undefined behaviour. `rgub SEED FIRST COUNT SIZE MODES`.
//! Prints one line of counters per case kind at the end.
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::*;
use rgmon::gen::*;
use rgmon::no_panic;
use rgmon::ops::*;
use rgmon::rng::Rg;
use rgmon::{NN32, NN64, OF32, OF64};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::Arc;

struct W {
  r: Rg,
  plans: Vec<String>,
  size: usize,
  n: BTreeMap<String, u64>,
  bad: Option<String>,
  case: u64,
}
impl W {
  fn count(&mut self, k: &str) {
    *self.n.entry(k.to_string()).or_insert(0) += 1;
  }
  fn must(&mut self, ok: bool, what: impl FnOnce() -> String) {
    self.count("comparisons");
    if !ok && self.bad.is_none() {
      self.bad = Some(what());
    }
  }
}

/// Places a plan exactly without going through rationals.
fn place<S: Opx>(p: &Plan) -> Option<Input<S>> {
  let f = |v: &Vec<V>| -> Option<Vec<Point<S>>> { v.iter().map(|v| Some(Point::new([S::from_i(v[0])?, S::from_i(v[1])?]))).collect() };
  let mut poly = f(&p.poly)?;
  if p.via == 1 {
    poly.reverse();
  }
  let poly = match p.via {
    0 => Polygon::new_unchecked(poly),
    1 => Polygon::new(poly).ok()?,
    _ => {
      Rg::new(p.shuffle).shuffle(&mut poly);
      rgeometry::algorithms::polygonization::two_opt_moves(poly, &mut Rg::new(p.shuffle)).ok()?
    }
  };
  Some(Input {
    pts: f(&p.pts)?,
    poly,
    convex: PolygonConvex::new_unchecked(Polygon::new_unchecked(f(&p.convex)?)),
    q: f(&p.q)?,
    dir: p.dir,
  })
}
fn input<S: Opx>(w: &mut W) -> Option<(Plan, Emb, Input<S>)> {
  if !w.plans.is_empty() {
    for _ in 0..40 {
      let p = Plan::read(w.r.pick(&w.plans).as_str());
      let heavy = !matches!(S::KIND, rgmon::sc::Kind::Fixed | rgmon::sc::Kind::Big);
      let wide = p.pts.len() + p.poly.len() > 9 || p.pts.iter().chain(&p.poly).flatten().any(|v| v.abs() > 150);
      if cfg!(miri) && heavy && wide {
        continue;
      }
      if let Some(i) = place::<S>(&p) {
        return Some((p, Emb::id(), i));
      }
    }
    return None;
  }
  for _ in 0..5 {
    let lim = lim_for::<S>(&mut w.r);
    let size = w.size;
    let p = plan(&mut w.r, lim, size);
    let e = emb::<S>(&mut w.r, lim);
    if let Some(i) = p.put::<S>(&e) {
      return Some((p, e, i));
    }
  }
  None
}
/// Too slow to interpret over floats, which fall back to rationals.
fn slow<S: Opx>(o: &str) -> bool {
  let float = matches!(S::KIND, rgmon::sc::Kind::F32 | rgmon::sc::Kind::F64);
  cfg!(miri) && (o == "visibility" && S::KIND != rgmon::sc::Kind::Rational || float && ["along", "sort_around", "star", "transform", "locate", "rays", "ccw_cmp", "is_monotone", "monotone"].contains(&o))
}
fn op<S: Opx>(w: &mut W) -> &'static str {
  let o = op1(w);
  if slow::<S>(o) {
    "triangulate"
  } else {
    o
  }
}
fn op1(w: &mut W) -> &'static str {
  if w.r.chance(1, 5) {
    w.r.pick(EXTRA)
  } else {
    w.r.pick(OPS)
  }
}
fn call<S: Opx>(o: &str, i: &Input<S>, seed: u64) -> Result<Out, String> {
  let t = std::time::Instant::now();
  let r = no_panic(|| run(o, i, seed));
  if std::env::var("RGUB_TIME").is_ok() {
    eprintln!("{} {} {:?}", o, S::NAME, t.elapsed());
  }
  r
}

/// Every operation on one thread; values are used again and dropped afterwards.
fn single<S: Opx>(w: &mut W) {
  let Some((_, _, i)) = input::<S>(w) else { return };
  let seed = w.r.u64();
  let all = w.size > 12;
  let mut ops: Vec<&str> = OPS.iter().chain(EXTRA).copied().collect();
  w.r.shuffle(&mut ops);
  if !all {
    ops.truncate(14);
  }
  for o in ops {
    if slow::<S>(o) && !w.r.chance(1, 60) {
      continue;
    }
    w.count(&format!("op:{}", o));
    let _ = call(o, &i, seed);
  }
  w.count(&format!("single:{}", S::NAME));
}

/// The same values read by several threads at once, and dropped on another one.
/// The same short list of operations on two threads at once, on the same small input
/// that nobody has used before; the lists cover all operations in turn.
fn race<S: Opx>(w: &mut W) {
  let Some((p, e, _)) = (0..20).find_map(|_| input::<S>(w).filter(|(p, ..)| p.poly.len() <= 8)) else { return };
  let i = Arc::new(if w.plans.is_empty() { p.put::<S>(&e).unwrap() } else { place::<S>(&p).unwrap() });
  let all: Vec<&'static str> = OPS.iter().chain(EXTRA).copied().filter(|o| !slow::<S>(o)).collect();
  let at = (w.case as usize / 7) * 5 + w.r.below(5);
  let list: Vec<&'static str> = (0..5).map(|k| all[(at + k) % all.len()]).collect();
  let seed = w.r.u64();
  let turn = w.r.below(3);
  let got: Vec<Vec<Result<Out, String>>> = std::thread::scope(|s| {
    let hs: Vec<_> = (0..2)
      .map(|t| {
        let (i, mut l) = (i.clone(), list.clone());
        s.spawn(move || {
          // now and then the other way round
          if t == 1 && turn == 0 {
            l.reverse();
          }
          let mut g: Vec<_> = l.iter().map(|o| call(o, &i, seed)).collect();
          if t == 1 && turn == 0 {
            g.reverse();
          }
          g
        })
      })
      .collect();
    hs.into_iter().map(|h| h.join().unwrap()).collect()
  });
  for o in &list {
    w.count(&format!("race:{}", o));
  }
  let alone: Vec<_> = list.iter().map(|o| call(o, &i, seed)).collect();
  w.must(got.iter().all(|g| *g == alone), || format!("{:?} on {}: results of two threads differ for {}", list, S::NAME, p.show()));
}

fn threads<S: Opx>(w: &mut W) {
  let Some((p, e, i)) = input::<S>(w) else { return };
  let seed = w.r.u64();
  let k = 2 + w.r.below(2);
  let lists: Vec<Vec<&'static str>> = (0..k).map(|_| (0..3).map(|_| op::<S>(w)).collect()).collect();
  let want: Vec<Vec<Result<Out, String>>> = lists.iter().map(|l| l.iter().map(|o| call(o, &i, seed)).collect()).collect();
  drop(i);
  let i = Arc::new(if w.plans.is_empty() { p.put::<S>(&e).unwrap() } else { place::<S>(&p).unwrap() });
  let got: Vec<Vec<Result<Out, String>>> = std::thread::scope(|s| {
    let hs: Vec<_> = lists
      .iter()
      .map(|l| {
        let i = i.clone();
        s.spawn(move || {
          l.iter()
            .map(|o| {
              let r = call(o, &i, seed);
              let v: Vec<&Vector<S, 2>> = i.pts.iter().map(|p| p.as_vec()).collect();
              std::thread::yield_now();
              assert!(v.iter().zip(&i.pts).all(|(v, p)| v.0[0] == p.array[0]));
              r
            })
            .collect()
        })
      })
      .collect();
    hs.into_iter().map(|h| h.join().unwrap()).collect()
  });
  for l in &lists {
    for o in l {
      w.count(&format!("op:{}", o));
    }
  }
  w.must(got == want, || format!("{:?} on {}: concurrent results differ from sequential ones for {}", lists, S::NAME, p.show()));
  // moved into a thread, changed there, dropped here
  let j = Arc::try_unwrap(i).ok().expect("threads ended");
  let g = std::thread::spawn(move || {
    let mut g = j.poly;
    for p in g.iter_mut() {
      p.array.swap(0, 1);
    }
    let keep = j.pts[0].as_vec().clone();
    (g, keep)
  })
  .join()
  .unwrap();
  drop(g);
  w.count(&format!("threads:{}", S::NAME));
}

// --- points seen as vectors, for any coordinate type ----------------------------------
fn view<T: Clone + PartialEq + Debug, const N: usize>(w: &mut W, mk: &mut dyn FnMut() -> T, kind: &str) {
  let m = 1 + w.r.below(5);
  let pts: Vec<Point<T, N>> = (0..m).map(|_| Point::new(std::array::from_fn(|_| mk()))).collect();
  let vs: Vec<&Vector<T, N>> = pts.iter().map(|p| p.as_vec()).collect();
  for (p, v) in pts.iter().zip(&vs) {
    w.must(p.array == v.0, || format!("as_vec of {:?} in {} dimensions", p, N));
    for k in 0..N {
      w.must(v[k] == p[k] && std::ptr::eq(&v[k], &p[k]), || format!("coordinate {} of the view of {:?}", k, p));
    }
    let t: &Vector<T, N> = (*p).as_vec();
    let u: &Vector<T, N> = p.into();
    let x = VectorView::from(p);
    w.must(t == u && *x.0 == t.0, || format!("views of {:?} differ", p));
  }
  let owned: Vec<Vector<T, N>> = vs.iter().map(|v| (*v).clone()).collect();
  let b: Box<Point<T, N>> = Box::new(pts[0].clone());
  let o2 = b.as_vec().clone();
  drop(pts);
  w.must(owned[0] == o2, || "boxed view differs".into());
  let back: Vec<Point<T, N>> = owned.iter().cloned().map(Point::from).collect();
  let fwd: Vec<Vector<T, N>> = back.into_iter().map(Vector::from).collect();
  w.must(fwd == owned, || "conversion there and back".into());
  // edited between views
  let mut p = *b;
  for k in 0..N {
    let _ = p.as_vec().0.len();
    p.array[k] = mk();
    let v = p.as_vec();
    w.must(v.0[k] == p.array[k], || "stale view".into());
  }
  let q = p.map(|c| (c.clone(), c));
  w.must(q.as_vec().0.iter().zip(&p.array).all(|((a, b), c)| a == c && b == c), || "mapped view".into());
  w.count(&format!("view:{}x{}", kind, N));
}
#[repr(align(64))]
#[derive(Clone, PartialEq, Debug)]
struct Wide(u8);
#[derive(Clone, PartialEq, Debug)]
struct Unit;
#[derive(Clone, PartialEq, Debug)]
#[allow(dead_code)]
enum Mix {
  A(Box<u32>),
  B(u8, String),
  C,
}
fn views(w: &mut W) {
  let mut g = w.r.fork();
  macro_rules! dims {
    ($mk:expr, $k:expr) => {{
      let mut mk = $mk;
      match w.r.below(5) {
        0 => view::<_, 0>(w, &mut mk, $k),
        1 => view::<_, 1>(w, &mut mk, $k),
        2 => view::<_, 3>(w, &mut mk, $k),
        3 => view::<_, 7>(w, &mut mk, $k),
        _ => view::<_, 2>(w, &mut mk, $k),
      }
    }};
  }
  match w.r.below(12) {
    0 => dims!(|| g.u64() as i8, "i8"),
    1 => dims!(|| g.u64() as i64, "i64"),
    2 => dims!(|| (g.u64() as u128) << 7, "u128"),
    3 => dims!(|| g.u64() as f32, "f32"),
    4 => dims!(|| OrderedFloat(g.u64() as f64), "OrderedFloat"),
    5 => dims!(|| NotNan::new(g.u64() as f64).unwrap(), "NotNan"),
    6 => dims!(|| BigInt::from(g.u64()) * BigInt::from(g.u64()), "BigInt"),
    7 => dims!(|| BigRational::new(BigInt::from(g.u64()), BigInt::from(1 + g.below(9))), "BigRational"),
    8 => dims!(|| Wide(g.u64() as u8), "align64"),
    9 => dims!(|| Unit, "zero-sized"),
    10 => dims!(
      || match g.below(3) {
        0 => Mix::A(Box::new(g.u64() as u32)),
        1 => Mix::B(1, format!("{}", g.u64())),
        _ => Mix::C,
      },
      "enum"
    ),
    _ => dims!(|| (g.chance(1, 2), g.u64() as u32, g.u64() as u8 as char), "tuple"),
  }
}

// --- closures that panic half way ------------------------------------------------------
static LIVE: AtomicI64 = AtomicI64::new(0);
#[derive(Debug)]
struct Res(Box<i64>);
impl Res {
  fn new(v: i64) -> Res {
    LIVE.fetch_add(1, SeqCst);
    Res(Box::new(v))
  }
}
impl Clone for Res {
  fn clone(&self) -> Res {
    Res::new(*self.0)
  }
}
impl Drop for Res {
  fn drop(&mut self) {
    LIVE.fetch_sub(1, SeqCst);
    *self.0 = -1;
  }
}
fn unwinding(w: &mut W) {
  let n = 3 + w.r.below(6);
  let at = w.r.below(2 * n + 2);
  let before = LIVE.load(SeqCst);
  let mk = |r: &mut Rg| Point::new([r.range(-9, 9), r.range(-9, 9)]);
  let pts: Vec<Point<i64>> = (0..n).map(|_| mk(&mut w.r)).collect();
  let g = Polygon::new_unchecked(pts.clone());
  let seen = Cell::new(0usize);
  let tick = |v: i64| {
    let k = seen.get();
    seen.set(k + 1);
    if k == at {
      panic!("planned")
    }
    Res::new(v)
  };
  let kind = w.r.below(6);
  let r = no_panic(|| match kind {
    0 => {
      let h: Polygon<Res> = g.clone().map(tick);
      drop(h);
    }
    1 => {
      for p in &pts {
        let q: Point<Res, 2> = p.map(tick);
        let _ = q.as_vec().0[1].0;
      }
    }
    2 => {
      for p in &pts {
        let q: Vector<Res, 2> = p.as_vec().map(tick);
        drop(q);
      }
    }
    3 => {
      let mut h: Polygon<Res> = g.clone().map(Res::new);
      for p in h.iter_mut() {
        for c in p.array.iter_mut() {
          *c = tick(*c.0);
        }
      }
      let v: Vec<i64> = h.iter().map(|p| *p.as_vec().0[0].0).collect();
      drop(h);
      drop(v);
    }
    4 => {
      let h: Polygon<Res> = g.clone().map(Res::new);
      let h = h.map_points(|p| Point::new([tick(*p.array[0].0), tick(*p.array[1].0)]));
      drop(h);
    }
    _ => {
      let h: Polygon<Res> = g.clone().map(Res::new);
      let h2 = h.clone();
      let m: Polygon<Res> = h.map(|c| tick(*c.0));
      drop(h2);
      drop(m);
    }
  });
  let planned = at < 2 * n;
  let ok = if planned { r.is_err() } else { r.is_ok() };
  w.must(ok, || format!("unwinding kind {} at {} of {}: {:?}", kind, at, n, r.err()));
  let after = LIVE.load(SeqCst);
  w.must(after >= before, || format!("{} values dropped twice (kind {}, panic at {} of {})", before - after, kind, at, n));
  w.count(&format!("unwinding:{}{}", kind, if planned { "" } else { ":completed" }));
}

// --- iterators kept alive and mixed -----------------------------------------------------
fn iterators<S: Opx>(w: &mut W) {
  let Some((_, _, i)) = input::<S>(w) else { return };
  let mut g = i.poly.clone();
  let n = g.iter_boundary().len();
  let mut it = g.iter_boundary();
  let mut kept: Vec<&Point<S>> = vec![];
  while let Some(c) = if w.r.chance(1, 2) { it.next() } else { it.next_back() } {
    kept.push(c.point());
    let v = c.point().as_vec();
    w.must(v.0[0] == c.point().array[0], || "view through a cursor".into());
  }
  w.must(kept.len() == n && it.next().is_none() && it.next_back().is_none(), || format!("{} of {} vertices", kept.len(), n));
  let ids = g.boundary_slice().to_vec();
  let e: Vec<DirectedEdge<'_, S>> = g.iter_boundary_edges().collect();
  w.must(e.len() == n && e.iter().zip(&ids).all(|(e, id)| e.src == g.point(*id)), || "edges differ from boundary".into());
  // out of range identifiers and positions may panic, nothing else
  if n > 0 {
    let h = Polygon::new_unchecked(i.pts.iter().take(1 + w.r.below(3)).cloned().collect::<Vec<_>>());
    for id in &ids {
      let _ = no_panic(|| h.point(*id).clone());
      let _ = no_panic(|| h.cursor(*id).next().prev().point().clone());
      let _ = no_panic(|| h.direct(IndexEdge::new(ids[0], *id)));
    }
    // a set too small for the edges put in, and points too few for the order given
    let mut set = IndexIntersectionSet::new(1 + w.r.below(3));
    for _ in 0..6 {
      let e = |w: &mut W| IndexEdge::new(*w.r.pick(&ids), *w.r.pick(&ids));
      let (a, b) = (e(w), e(w));
      let _ = no_panic(|| set.push(IndexIntersection::new(a, b)));
      let _ = no_panic(|| set.remove_all(b));
      let mut g = w.r.fork();
      let _ = no_panic(|| set.random(&mut g));
      let _ = no_panic(|| set.iter().count());
    }
    let few: Vec<Point<S>> = h.iter().cloned().collect();
    let mut ord = ids.clone();
    if w.r.chance(1, 2) {
      ord.extend_from_slice(&ids);
    }
    w.r.shuffle(&mut ord);
    let g2 = w.r.fork();
    let _ = no_panic(|| rgeometry::algorithms::triangulation::earclip::triangulate_list(&few, &ord, g2).take(40).count());
    let ints: Vec<Point<i64>> = (0..few.len() as i64).map(|k| Point::new([k, k * k % 7])).collect();
    let g2 = w.r.fork();
    let _ = no_panic(|| rgeometry::algorithms::triangulation::earclip::triangulate_list_hashed(&ints, &ord, g2).take(40).count());
    let all: Vec<Point<i64>> = (0..n as i64).map(|k| Point::new([k, k * k % 7])).collect();
    let g2 = w.r.fork();
    let _ = no_panic(|| rgeometry::algorithms::triangulation::earclip::triangulate_list_hashed(&all, &ord, g2).take(40).count());
    w.count("foreign identifiers");
  }
  // take the mutable iterator from both ends while values move
  {
    let mut m = g.iter_mut();
    let mut held: Vec<&mut Point<S>> = vec![];
    while let Some(p) = m.next() {
      held.push(p);
    }
    let k = held.len();
    for a in 0..k / 2 {
      let (x, y) = held.split_at_mut(k / 2);
      std::mem::swap(&mut *x[a], &mut *y[0]);
    }
  }
  let f: Vec<Point<S>> = g.iter().cloned().collect();
  w.must(f.len() == n, || "vertices lost".into());
  w.count(&format!("iterators:{}", S::NAME));
}
/// Iterators over intersections, sets and triangulations dropped half way.
fn partial<S: Opx>(w: &mut W) {
  let Some((_, _, i)) = input::<S>(w) else { return };
  let k = w.r.below(4);
  let _ = no_panic(|| {
    let es: Vec<DirectedEdge<'_, S>> = i.poly.iter_boundary_edges().collect();
    rgeometry::algorithms::segment_intersections(&es).take(k).count()
      + i.poly.triangulate().take(k).count()
      + rgeometry::algorithms::triangulation::earclip::earclip(&i.poly).take(k).count()
  });
  let ids = i.poly.boundary_slice();
  let n = ids.len();
  let mut set = IndexIntersectionSet::new(n);
  for _ in 0..20 {
    let (a, b) = (w.r.below(n), w.r.below(n));
    let e = |k: usize| IndexEdge::new(ids[k], ids[(k + 1) % n]);
    match w.r.below(4) {
      0 if a != b => set.push(IndexIntersection::new(e(a), e(b))),
      1 => set.remove_all(e(a)),
      2 => {
        let mut g = w.r.fork();
        let _ = set.random(&mut g);
      }
      _ => {
        let _ = set.iter().take(2).count();
      }
    }
  }
  w.count(&format!("partial:{}", S::NAME));
}

/// Polygons that nothing has checked: none to three vertices, repeated ones,
/// clockwise, tangled or flat. A call may panic, no more.
fn unchecked<S: Opx>(w: &mut W) {
  let r = &mut w.r;
  let some = |r: &mut Rg, n: usize| -> Vec<Point<S>> {
    let lim = *r.pick(&[0i64, 1, 2, 5]);
    (0..n).map(|_| Point::new([S::from_i(r.range(-lim, lim)).unwrap(), S::from_i(r.range(-lim, lim)).unwrap()])).collect()
  };
  let n = r.below(6);
  let m = r.below(6);
  let k = 1 + r.below(4);
  let i = Input { pts: some(r, n), poly: Polygon::new_unchecked(some(r, m)), convex: PolygonConvex::new_unchecked(Polygon::new_unchecked(vec![])), q: some(r, k), dir: [1, 2] };
  let seed = r.u64();
  let mut ops: Vec<&str> = OPS.iter().chain(EXTRA).copied().collect();
  r.shuffle(&mut ops);
  ops.truncate(if cfg!(miri) { 6 } else { 30 });
  let mut panics = 0;
  for o in ops {
    if slow::<S>(o) {
      continue;
    }
    panics += call(o, &i, seed).is_err() as u64;
    w.count(&format!("unchecked:{}", o));
  }
  // calls that take a polygon for convex
  for size in 0..4 {
    let v = some(&mut w.r, size);
    let g = PolygonConvex::new_unchecked(Polygon::new_unchecked(v));
    for q in i.q.iter().chain(g.polygon().iter()) {
      panics += no_panic(|| g.locate(q)).is_err() as u64;
    }
    panics += no_panic(|| g.validate()).is_err() as u64;
    panics += no_panic(|| g.polygon().validate()).is_err() as u64;
    panics += no_panic(|| g.polygon().bounding_box()).is_err() as u64;
    panics += no_panic(|| g.polygon().equals(&i.poly)).is_err() as u64;
    panics += no_panic(|| g.polygon().locate(&i.q[0])).is_err() as u64;
    panics += no_panic(|| g.polygon().iter_boundary().rev().count() + g.polygon().iter_boundary_edges().count()).is_err() as u64;
    let mut h = Polygon::from(g.clone());
    panics += no_panic(|| h.ensure_ccw()).is_err() as u64;
    panics += no_panic(|| rgeometry::algorithms::convex_hull::melkman::convex_hull(&h)).is_err() as u64;
    w.count(&format!("unchecked convex of {}", size));
  }
  *w.n.entry("unchecked calls that panicked".into()).or_insert(0) += panics;
  w.count(&format!("unchecked:{}", S::NAME));
}

macro_rules! types {
  ($w:expr, $f:ident) => {
    match $w.r.below(9) {
      0 => $f::<i8>($w),
      1 => $f::<i64>($w),
      2 => $f::<isize>($w),
      3 => $f::<BigInt>($w),
      4 => $f::<BigRational>($w),
      5 => $f::<f64>($w),
      6 => match $w.r.below(4) {
        0 => $f::<OF32>($w),
        1 => $f::<OF64>($w),
        2 => $f::<NN32>($w),
        _ => $f::<NN64>($w),
      },
      7 => $f::<f32>($w),
      _ => match $w.r.below(2) {
        0 => $f::<i16>($w),
        _ => $f::<i32>($w),
      },
    }
  };
}

fn main() {
  let a: Vec<u64> = std::env::args().skip(1).take(4).map(|s| s.parse().unwrap()).collect();
  let (seed, first, count, size) = (a[0], a[1], a[2], a[3] as usize);
  let modes: Vec<String> = std::env::args().nth(5).unwrap_or_else(|| "svuiptd".into()).chars().map(|c| c.to_string()).collect();
  std::panic::set_hook(Box::new(|_| {}));
  if modes[0] == "P" {
    // plans for the interpreter, which is too slow to make its own
    let mut r = Rg::new(seed);
    for k in 0..count {
      let lim = *r.pick(&[4, 9, 120, 127, 127, 30000, 1 << 23, 1 << 40]);
      let size = if k % 3 == 0 { 4 } else { size };
      println!("{}", plan(&mut r, lim, size).write());
    }
    return;
  }
  let plans = match std::env::args().nth(6) {
    Some(f) => std::fs::read_to_string(f).unwrap().lines().map(String::from).collect(),
    None => vec![],
  };
  let mut w = W { r: Rg::new(0), plans, size, n: BTreeMap::new(), bad: None, case: 0 };
  let budget = std::env::var("RGUB_BUDGET").ok().and_then(|b| b.parse().ok()).unwrap_or(u64::MAX);
  let t0 = std::time::Instant::now();
  for case in first..first + count {
    w.r = Rg::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case.wrapping_mul(0xD1B54A32D192ED03));
    w.r.u64();
    w.case = case;
    let m = modes[case as usize % modes.len()].clone();
    // progress goes out unbuffered, so that a report can be attributed
    eprintln!("case {} mode {}", case, m);
    if t0.elapsed().as_secs() >= budget {
      break;
    }
    let w = &mut w;
    // a panic is defined behaviour
    let done = no_panic(|| match m.as_str() {
      "s" => types!(w, single),
      "t" => types!(w, threads),
      "r" => match w.r.below(4) {
        0 => race::<BigInt>(w),
        1 => race::<i8>(w),
        2 => race::<i32>(w),
        _ => race::<i64>(w),
      },
      "v" => (0..6).for_each(|_| views(w)),
      "u" => (0..6).for_each(|_| unwinding(w)),
      "i" => types!(w, iterators),
      "d" => types!(w, unchecked),
      _ => types!(w, partial),
    });
    if done.is_err() {
      w.count("cases ended by a panic");
    }
    w.count("cases");
    w.count(&format!("mode:{}", m));
    if let Some(b) = &w.bad {
      println!("BAD case {}: {}", case, b.replace('\n', " "));
      std::process::exit(7);
    }
  }
  for (k, v) in &w.n {
    println!("N {} {}", v, k);
  }
  println!("DONE");
}
