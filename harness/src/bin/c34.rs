//! Calls everything that should always return on inputs nobody would draw at
//! random. The engine watches for panics, arithmetic traps, memory and CPU time;
//! results are only checked for being self-consistent.
use rand::RngCore;
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::polygonization::{new_monotone_polygon, new_star_polygon, resolve_self_intersections, two_opt_moves};
use rgeometry::algorithms::segment_intersections;
use rgeometry::algorithms::triangulation::earclip::earclip;
use rgeometry::data::*;
use rgeometry::{Error, Intersects, Orientation};
use rgmon::gen::*;
use rgmon::hulls::lattice_seq;
use rgmon::ops::Opx;
use rgmon::rng::{Hostile, Rg};
use rgmon::*;

/// Runs one call; anything but a return is the violation.
fn ret<R>(ctx: &mut Ctx, what: &str, about: &dyn Fn() -> String, f: impl FnOnce() -> R) -> Result<R, String> {
  ctx.eval();
  if ctx.trace { eprintln!("{} {}", what, about()); }
  ctx.count(&format!("returned:{}", what));
  no_panic(f).map_err(|m| format!("{} {} for {}", what, m, about()))
}
fn err(ctx: &mut Ctx, what: &str, e: &Error) {
  ctx.count(&format!("error:{}:{:?}", what, e));
}
fn stream(r: &mut Rg) -> Hostile {
  Hostile::pick(r)
}

/// Functions of a list of points; `small` also runs the expensive ones.
fn lists<S: Opx>(ctx: &mut Ctx, r: &mut Rg, p: &[Point<S>], small: bool) -> Res {
  let about = || show(p);
  let distinct = {
    let mut v: Vec<&Point<S>> = p.iter().collect();
    v.sort();
    v.windows(2).all(|w| w[0] != w[1])
  };
  let flat = ret(ctx, "all_colinear", &about, || Point::all_colinear(p))?;
  for (what, f) in [
    ("convex_hull", rgeometry::algorithms::convex_hull::<S> as fn(Vec<Point<S>>) -> Result<PolygonConvex<S>, Error>),
    ("graham_scan", graham_scan::convex_hull::<S>),
    ("gift_wrapping", gift_wrapping::convex_hull::<S>),
  ] {
    if what == "gift_wrapping" && p.len() > 300 {
      continue; // its time is the product of points and hull size
    }
    match ret(ctx, what, &about, || f(p.to_vec()))? {
      Ok(h) => {
        ck!(!flat, "{} of points on one line gives {} for {}", what, show(&boundary(h.polygon())), about());
        if small {
          ret(ctx, "PolygonConvex::validate", &about, || h.validate().is_ok())?;
          for q in p.iter().take(4) {
            ret(ctx, "PolygonConvex::locate", &about, || h.locate(q))?;
          }
        }
      }
      Err(e) => {
        err(ctx, what, &e);
        ck!(flat, "{} refuses {} with {:?}", what, about(), e)
      }
    }
  }
  if small {
    let mut h = stream(r);
    match ret(ctx, "two_opt_moves", &about, || two_opt_moves(p.to_vec(), &mut h))? {
      Ok(g) => whole(ctx, &g, p)?,
      Err(e) => err(ctx, "two_opt_moves", &e),
    }
    if distinct && p.len() >= 3 {
      let mut g = Polygon::new_unchecked(p.to_vec());
      let mut h = stream(r);
      if let Err(e) = ret(ctx, "resolve_self_intersections", &about, || resolve_self_intersections(&mut g, &mut h))? {
        err(ctx, "resolve_self_intersections", &e);
      }
    }
    match ret(ctx, "Polygon::new", &about, || Polygon::new(p.to_vec()))? {
      Ok(g) => {
        whole(ctx, &g, p)?;
        let m = ret(ctx, "melkman", &about, || melkman::convex_hull(&g))?;
        ck!(m.iter().count() >= 3, "melkman hull of {} has {} vertices", about(), m.iter().count());
      }
      Err(e) => err(ctx, "Polygon::new", &e),
    }
    let edges: Vec<DirectedEdge<'_, S>> = (0..p.len()).map(|i| DirectedEdge { src: &p[i], dst: &p[(i + 1) % p.len()] }).collect();
    ret(ctx, "segment_intersections", &about, || segment_intersections(&edges).count())?;
  }
  let dir = loop {
    let d = [r.range(-2, 2), r.range(-2, 2)];
    if d != [0, 0] {
      break Vector([S::from_i(d[0]).unwrap(), S::from_i(d[1]).unwrap()]);
    }
  };
  // both validate their result, which is quadratic
  if p.len() <= 300 {
    if let Err(e) = ret(ctx, "new_monotone_polygon", &about, || new_monotone_polygon(p.to_vec(), &dir))? {
      err(ctx, "new_monotone_polygon", &e);
    }

    let c = if p.is_empty() || r.chance(1, 3) { Point::new([S::from_constant(0), S::from_constant(0)]) } else { r.pick(p).clone() };
    if let Err(e) = ret(ctx, "new_star_polygon", &about, || new_star_polygon(p.to_vec(), &c))? {
      err(ctx, "new_star_polygon", &e);
    }
  }
  any_chain(ctx, p, small)?;
  ctx.nontrivial(key(p));
  ctx.sample(about);
  Ok(())
}
/// A polygon that was accepted supports everything.
fn whole<S: Opx>(ctx: &mut Ctx, g: &Polygon<S>, q: &[Point<S>]) -> Res {
  let about = || format!("polygon {}", show(&boundary(g)));
  for x in q.iter().take(6) {
    ret(ctx, "Polygon::locate", &about, || g.locate(x))?;
  }
  let n = ret(ctx, "triangulate", &about, || g.triangulate().count())?;
  ck!(n + 2 == g.iter_boundary().len(), "{} triangles for {}", n, about());
  ret(ctx, "earclip", &about, || earclip(g).count())?;
  ret(ctx, "earclip_hashed", &about, || S::hashed(g).map(|v| v.len()))?;
  let o = ret(ctx, "orientation", &about, || g.orientation())?;
  ck!(o == Orientation::CounterClockWise, "accepted as {:?}: {}", o, about());
  ctx.count("accepted polygons");
  Ok(())
}
/// What has an answer for any closed chain of points, sensible or not.
fn any_chain<S: Opx>(ctx: &mut Ctx, p: &[Point<S>], small: bool) -> Res {
  let about = || format!("unchecked polygon {}", show(p));
  let g = Polygon::new_unchecked(p.to_vec());
  if small || p.len() < 3 {
    let v = ret(ctx, "validate", &about, || g.validate())?;
    let w = ret(ctx, "validate_weakly", &about, || g.validate_weakly())?;
    ck!(v.is_err() || w.is_ok(), "strictly valid but not weakly: {}", about());
    ck!(p.len() >= 3 || v.is_err() && w.is_err(), "{} vertices pass as valid", p.len());
    // a boundary without vertices is refused before it can be a convex polygon
    if !p.is_empty() {
      let c = PolygonConvex::new_unchecked_or_panic(&g);
      if let Some(c) = c {
        ret(ctx, "PolygonConvex::validate", &about, || c.validate().is_ok())?;
      }
    }
  }
  ret(ctx, "orientation", &about, || g.orientation())?;
  let n = ret(ctx, "iter_boundary", &about, || (g.iter_boundary().count(), g.iter_boundary().rev().count(), g.iter_boundary().len(), g.iter_boundary_edges().count()))?;
  ck!(n == (p.len(), p.len(), p.len(), p.len()), "{:?} boundary steps for {}", n, about());
  ret(ctx, "iter", &about, || g.iter().count())?;
  if !p.is_empty() {
    ret(ctx, "bounding_box", &about, || g.bounding_box())?;
  }
  if small && p.len() <= 40 {
    ret(ctx, "equals", &about, || g.equals(&g))?;
    ret(ctx, "corners", &about, || g.iter_boundary().map(|c| (c.orientation(), c.is_colinear())).count())?;
    if p.len() >= 3 {
      ret(ctx, "is_monotone", &about, || g.is_monotone(&Vector([S::from_constant(1), S::from_constant(-2)])))?;
    }
  }
  let mut h = g;
  match ret(ctx, "ensure_ccw", &about, || h.ensure_ccw())? {
    Ok(()) => {}
    Err(e) => err(ctx, "ensure_ccw", &e),
  }
  Ok(())
}
trait TryConvex<S: Opx>: Sized {
  fn new_unchecked_or_panic(g: &Polygon<S>) -> Option<PolygonConvex<S>>;
}
impl<S: Opx> TryConvex<S> for PolygonConvex<S> {
  /// The unchecked constructor asserts validity in builds with debug assertions.
  fn new_unchecked_or_panic(g: &Polygon<S>) -> Option<PolygonConvex<S>> {
    no_panic(|| PolygonConvex::new_unchecked(g.clone())).ok()
  }
}

// --- families ------------------------------------------------------------------------

fn raw_lists<S: Opx>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = match r.below(4) {
    0 => r.below(4),
    1 => 3 + r.below(3),
    _ => r.below(11),
  };
  let p = raw_points::<S>(r, n);
  lists(ctx, r, &p, true)
}
fn raw(ctx: &mut Ctx) -> Res {
  all_types!(ctx, raw_lists)
}
/// Every short sequence over a lattice whose outer coordinates are the extremes of
/// the type.
fn lattice_lists<S: Opx>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let k = if ctx.case < 20_000 { ctx.case } else { r.u64() % 600_000 };
  let v = lattice_seq(k, 6);
  let mid: S = S::from_constant(0);
  let (lo, hi): (S, S) = match S::KIND {
    sc::Kind::Fixed => (S::from_i(S::MIN).unwrap(), S::from_i(S::MAX).unwrap()),
    _ => (S::from_i(-(1 << 20)).unwrap(), S::from_i(1 << 20).unwrap()),
  };
  let ext = r.chance(1, 2);
  let val = |c: i64| -> S {
    match c {
      0 if ext => lo.clone(),
      1 if ext => mid.clone(),
      2 if ext => hi.clone(),
      c => S::from_i(c).unwrap(),
    }
  };
  let p: Vec<Point<S>> = v.iter().map(|q| Point::new([val(q[0]), val(q[1])])).collect();
  ctx.count("lattice sequences");
  lists(ctx, r, &p, true)
}
fn lattice(ctx: &mut Ctx) -> Res {
  all_types!(ctx, lattice_lists)
}
/// Orders that make incremental algorithms work hardest.
fn adversarial<S: Opx>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let small = r.chance(2, 3);
  let n = if small { 8 + r.below(22) } else { 300 + r.below(3000) };
  let lim = lim_for::<S>(r);
  let mut v = point_set(r, n, lim);
  match r.below(5) {
    0 => v.sort(),
    1 => {
      // zig-zag between the ends
      v.sort();
      let k = v.len();
      v = (0..k).map(|i| if i % 2 == 0 { v[i / 2] } else { v[k - 1 - i / 2] }).collect();
    }
    2 => {
      // everything twice, far apart
      let w = v.clone();
      v.extend(w);
      v.truncate(n);
    }
    3 => {
      v.sort_by_key(|p| (p[1], -p[0]));
    }
    _ => {}
  }
  let Some((p, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
  ctx.count(if small { "adversarial orders" } else { "long lists" });
  lists(ctx, r, &p, small)
}
fn orders(ctx: &mut Ctx) -> Res {
  all_types!(ctx, adversarial)
}

/// Predicates and segments over unstructured values.
fn pred<S: Opx>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let p = raw_points::<S>(r, 8);
  let d = raw_points::<S>(r, 2);
  let about = || format!("{} {}", show(&p), show(&d));
  for _ in 0..6 {
    let (a, b, c, e) = (r.pick(&p), r.pick(&p), r.pick(&p), r.pick(&p));
    let v = Vector(d[0].array.clone());
    ret(ctx, "orient", &about, || (Point::orient(a, b, c), a.cmp_distance_to(b, c), a.cmp(b)))?;
    ret(ctx, "orient_along", &about, || (Point::orient_along_vector(a, &v, b), Point::orient_along_perp_vector(a, &v, b), v.cmp_along(a, b)))?;
    ret(ctx, "orient_along_direction", &about, || (Point::orient_along_direction(a, Direction::Vector(&v), b), Point::orient_along_direction(a, Direction::Through(b), c)))?;
    ret(ctx, "ccw_cmp_around", &about, || a.ccw_cmp_around(b, c))?;
    if v.0.iter().any(|x| *x != S::from_constant(0)) {
      ret(ctx, "ccw_cmp_around_with", &about, || a.ccw_cmp_around_with(&v, b, c))?;
    }
    let end = |x, i| if i { EndPoint::Inclusive(x) } else { EndPoint::Exclusive(x) };
    let f: Vec<bool> = (0..4).map(|_| r.chance(1, 2)).collect();
    ret(ctx, "LineSegmentView", &about, || {
      let s = LineSegmentView::new(end(a, f[0]), end(b, f[1]));
      let t = LineSegmentView::new(end(c, f[2]), end(e, f[3]));
      (s.contains(c), s.intersect(t).is_some(), t.intersect(s).is_some(), s.intersect(s).is_some())
    })?;
    ret(ctx, "DirectedEdge", &about, || {
      let s = DirectedEdge { src: a, dst: b };
      let t = DirectedEdge { src: c, dst: e };
      (s.contains(c), s.intersect(t).is_some())
    })?;
    ret(ctx, "HalfLineSoS", &about, || {
      let h = HalfLineSoS::new_through(a, b);
      let e = DirectedEdge { src: c, dst: e };
      let k = HalfLineSoS::new_directed(a, &v);
      let l: LineSoS<S> = Line::new_through(a, b).into();
      ((&h).intersect(e).is_some(), (&k).intersect(e).is_some(), (&l).intersect(e).is_some())
    })?;
    ret(ctx, "TriangleView", &about, || {
      let t = TriangleView::new_unchecked([a, b, c]);
      (t.orientation(), t.validate().is_ok(), TriangleView::new([a, b, c]).map(|t| t.locate(e)).is_ok(), t.bounding_box(), Triangle::new([a.clone(), b.clone(), c.clone()]).is_ok())
    })?;
  }
  ret(ctx, "Vector::sort_around", &about, || {
    let mut w: Vec<Vector<S, 2>> = p.iter().map(|q| Vector(q.array.clone())).filter(|v| v.0.iter().any(|x| *x != S::from_constant(0))).collect();
    Vector::sort_around(&mut w);
    w.len()
  })?;
  ret(ctx, "sort", &about, || {
    let mut w = p.clone();
    w.sort();
    w
  })?;
  ctx.nontrivial(key(&p));
  Ok(())
}
fn predicates(ctx: &mut Ctx) -> Res {
  all_types!(ctx, pred)
}

/// The intersection set under arbitrary operation sequences.
fn sets(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  if r.chance(1, 16) {
    // too few vertices for any intersection
    let n = r.below(3);
    let mut h = stream(r);
    ctx.eval();
    let got = no_panic(|| {
      let mut s = IndexIntersectionSet::new(n);
      let none = s.random(&mut h).is_none();
      (none, s.iter().count())
    })
    .map_err(|m| format!("IndexIntersectionSet::new({}), a random pick and iteration: {}", n, m))?;
    ck!(got == (true, 0), "new set over {} vertices: random is none: {}, members: {}", n, got.0, got.1);
    ctx.count("tiny sets");
    ctx.nontrivial(n);
    return Ok(());
  }
  let n = 3 + r.below(8);
  let g = Polygon::new_unchecked((0..n as i64).map(|i| Point::new([i, i * i])).collect());
  let ids = g.boundary_slice().to_vec();
  let mut trace = vec![];
  let mut set = no_panic(|| IndexIntersectionSet::new(n)).map_err(|m| format!("IndexIntersectionSet::new({}): {}", n, m))?;
  let mut h = stream(r);
  for _ in 0..40 {
    let (a, b) = (r.below(n), r.below(n));
    let (ea, eb) = (IndexEdge::new(ids[a], ids[(a + 1) % n]), IndexEdge::new(ids[b], ids[(b + 1) % n]));
    let k = r.below(5);
    trace.push((k, a, b));
    ctx.eval();
    no_panic(|| match k {
      0..=1 if a != b => set.push(IndexIntersection::new(ea, eb)),
      2 => set.remove_all(ea),
      3 => {
        let _ = set.random(&mut h);
      }
      _ => {
        let _ = set.iter().count();
      }
    })
    .map_err(|m| format!("intersection set over {} edges, {:?}: {}", n, trace, m))?;
    ctx.count("set operations");
  }
  ctx.nontrivial(trace);
  Ok(())
}
/// Sampling over steered streams.
fn sampling(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let mut h = loop {
    let h = stream(r);
    // no polygon exists on an endless stream of zeros
    if !matches!(h, Hostile::Zero) {
      break h;
    }
  };
  let n = r.below(12);
  ctx.eval();
  ctx.count(&format!("sampled:{}", h.name()));
  macro_rules! one {
    ($t:ty) => {
      no_panic(|| PolygonConvex::<$t>::random(n, &mut h)).map(|p| p.iter().count()).map_err(|m| format!("PolygonConvex::<{}>::random({}): {}", stringify!($t), n, m))?
    };
  }
  let k = match r.below(5) {
    0 => one!(i8),
    1 => one!(i16),
    2 => one!(i32),
    3 => one!(i64),
    _ => one!(isize),
  };
  ck!((3..=n.max(3)).contains(&k), "random({}) has {} vertices", n, k);
  ctx.nontrivial((n, k, h.next_u64()));
  Ok(())
}

const DEEP: [&str; 22] = [
  "hull", "hull_f64", "gift", "melkman", "walks", "convex", "random_convex", "late_convex", "late_sample", "sort_around", "colinear", "sum", "set", "validate",
  "tangled", "segments", "earclip", "earclip_hashed", "monotone", "star", "two_opt", "visibility",
];
fn deep_program() -> std::path::PathBuf {
  let exe = std::env::current_exe().unwrap();
  exe.parent().unwrap().parent().unwrap().join("plain").join("deep")
}
/// One call on a long input, in an unoptimised build and a thread with a stack of
/// 192 KB: the depth of calls must not grow with the length of the input.
fn deep(ctx: &mut Ctx) -> Res {
  let kind = DEEP[ctx.case as usize % DEEP.len()];
  let seed = ctx.rng.u64() >> 1;
  ctx.eval();
  let out = std::process::Command::new(deep_program()).args([kind, &seed.to_string()]).output().map_err(|e| format!("machinery: {}", e))?;
  let text = String::from_utf8_lossy(&out.stdout).to_string();
  let err = String::from_utf8_lossy(&out.stderr).to_string();
  ck!(
    out.status.success() && text.starts_with("done "),
    "{} on a long input (deep {} {}) with a stack of 192 KB in an unoptimised build ended with {:?}: {} {}",
    kind, kind, seed, out.status, text.chars().take(300).collect::<String>(), err.chars().take(600).collect::<String>()
  );
  ctx.count("small stack, long input");
  ctx.count(&format!("deep:{}", kind));
  ctx.nontrivial((kind, text));
  Ok(())
}

fn main() {
  if !deep_program().is_file() {
    eprintln!("CHECK-ERROR property=C34: target/plain/deep is not built");
    std::process::exit(2);
  }
  engine::run_main(Property {
    id: "C34",
    rule: "one list of arguments handed to the whole group of functions",
    assumptions: &[
      "finite coordinates; f64 magnitudes within 2^+-240",
      "functions whose documentation names a panic (new_ccw of colinear points, direct of a foreign edge, bounded-type overflow of centroid and area) are called within their domain",
      "PolygonConvex::random is not given a stream of zeros only",
    ],
    families: vec![
      Family { name: "deep", quick: 22 * 5, thorough: 22 * 150, f: deep },
      Family { name: "raw", quick: 20_000, thorough: 1_000_000, f: raw },
      Family { name: "lattice", quick: 20_000, thorough: 600_000, f: lattice },
      Family { name: "orders", quick: 1_500, thorough: 60_000, f: orders },
      Family { name: "predicates", quick: 20_000, thorough: 1_000_000, f: predicates },
      Family { name: "sets", quick: 3_000, thorough: 200_000, f: sets },
      Family { name: "sampling", quick: 5_000, thorough: 300_000, f: sampling },
    ],
    require: &[
      "returned:two_opt_moves", "returned:melkman", "accepted polygons", "error:two_opt_moves:DuplicatePoints", "error:Polygon::new:SelfIntersections",
      "error:graham_scan:InsufficientVertices", "adversarial orders", "long lists", "lattice sequences", "set operations", "tiny sets", "sampled:high",
      "small stack, long input", "deep:hull", "deep:late_convex", "deep:two_opt",
    ],
  })
}
