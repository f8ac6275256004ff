use num_traits::{Signed, Zero};
use rgeometry::algorithms::visibility::naive::get_visibility_polygon;
use rgeometry::data::{Point, Polygon};
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::rng::Rg;
use rgmon::sc::rpt;
use rgmon::*;

type R = BigRational;
type Q = [R; 2];
fn int(v: i64) -> R {
  R::from_integer(BigInt::from(v))
}
fn at(o: &Q, d: &Q, t: &R) -> Q {
  [&o[0] + &d[0] * t, &o[1] + &d[1] * t]
}
fn angle(a: &Q, b: &Q) -> std::cmp::Ordering {
  // upper half-plane (and the positive axis) first
  let half = |v: &Q| if v[1].is_positive() || (v[1].is_zero() && v[0].is_positive()) { 0 } else { 1 };
  half(a).cmp(&half(b)).then_with(|| R::zero().cmp(&rcross(a, b)))
}
/// Distinct directions from o to the vertices, counter-clockwise.
fn directions(p: &[Q], o: &Q) -> Vec<Q> {
  let mut d: Vec<Q> = p.iter().map(|v| rsub(v, o)).collect();
  d.sort_by(angle);
  d.dedup_by(|a, b| angle(a, b).is_eq());
  d
}
/// Twice the exact area of the region seen from o: between neighbouring vertex
/// directions one edge limits the view.
fn visible_area2(p: &[Q], o: &Q) -> Result<R, String> {
  let d = directions(p, o);
  let n = p.len();
  let mut sum = R::zero();
  for i in 0..d.len() {
    let (u, v) = (&d[i], &d[(i + 1) % d.len()]);
    if !rcross(u, v).is_positive() {
      return Err("harness: viewpoint not inside".into());
    }
    let m = [&u[0] + &v[0], &u[1] + &v[1]];
    let mut best: Option<(R, usize)> = None;
    for k in 0..n {
      let (a, b) = (&p[k], &p[(k + 1) % n]);
      let f = rsub(b, a);
      let den = rcross(&m, &f);
      if den.is_zero() { continue }
      let ao = rsub(a, o);
      let t = rcross(&ao, &f) / &den;
      let s = rcross(&ao, &m) / &den;
      if t.is_positive() && !s.is_negative() && s <= int(1) && best.as_ref().map_or(true, |b| t < b.0) {
        best = Some((t, k));
      }
    }
    let (_, k) = best.ok_or("harness: no edge ahead")?;
    let (a, b) = (&p[k], &p[(k + 1) % n]);
    let f = rsub(b, a);
    let ao = rsub(a, o);
    let hit = |w: &Q| -> Q { let t = rcross(&ao, &f) / rcross(w, &f); [&w[0] * &t, &w[1] * &t] };
    sum += rcross(&hit(u), &hit(v));
  }
  Ok(sum)
}
fn rarea2(p: &[Q]) -> R {
  (0..p.len()).fold(R::zero(), |s, i| s + rcross(&p[i], &p[(i + 1) % p.len()]))
}
fn run(ctx: &mut Ctx, r: &mut Rg, poly: &Polygon<R>, o: &Point<R>) -> Res {
  let p: Vec<Q> = boundary(poly).iter().map(rpt).collect();
  let oq = rpt(o);
  ctx.eval();
  let dirs = directions(&p, &oq);
  if dirs.len() < p.len() { ctx.count("vertices_in_line") }
  let what = || format!("get_visibility_polygon from {} in {}", show(&[o.clone()]), show(&boundary(poly)));
  let before = boundary(poly);
  let got = no_panic(|| get_visibility_polygon(o, poly)).map_err(|e| format!("{}: {}", what(), e))?;
  ck!(before == boundary(poly), "{}: input changed", what());
  let Some(vis) = got else { return Err(format!("{}: None for an interior viewpoint", what())) };
  let vp = boundary(&vis);
  let v: Vec<Q> = vp.iter().map(rpt).collect();
  let what = || format!("{} = {}", what(), show(&vp));
  match exact_rat(&v) {
    Ex::Big(b, _) => {
      ck!(is_simple(&b), "{}: not simple", what());
      ck!(sgn(&area2(&b)) > 0, "{}: clockwise", what());
    }
    _ => unreachable!(),
  }
  let (want, is) = (visible_area2(&p, &oq)?, rarea2(&v));
  ck!(want == is, "{}: doubled area {}, exactly {}", what(), is, want);
  let skip = v.len() / 40;
  for i in 0..v.len() {
    if skip > 0 && r.below(skip + 1) > 0 { continue }
    ck!(seg_inside(&p, &v[i], &v[(i + 1) % v.len()]), "{}: edge {} leaves the polygon", what(), i);
  }
  ck!(locate_rat(&v, &oq) == Loc::In, "{}: viewpoint not inside", what());
  ctx.count(if is == rarea2(&p) { "sees_everything" } else { "partly_hidden" });
  // sample points
  let mut qs: Vec<Q> = vec![];
  let eps = R::new(BigInt::from(1), BigInt::from(r.range(3, 1000)));
  for i in 0..v.len().min(12) {
    let (a, b) = (&v[i], &v[(i + 1) % v.len()]);
    let m = [(&a[0] + &b[0]) / int(2), (&a[1] + &b[1]) / int(2)];
    let d = rsub(&m, &oq);
    qs.push(at(&oq, &d, &(int(1) - &eps)));
    qs.push(at(&oq, &d, &(int(1) + &eps)));
  }
  for _ in 0..6 {
    let (a, b, c) = (r.pick(&p).clone(), r.pick(&p).clone(), r.pick(&p).clone());
    let (x, y, z) = (r.range(0, 50), r.range(0, 50), r.range(1, 50));
    let s = int(x + y + z);
    qs.push([(&a[0] * int(x) + &b[0] * int(y) + &c[0] * int(z)) / &s, (&a[1] * int(x) + &b[1] * int(y) + &c[1] * int(z)) / &s]);
  }
  for q in &qs {
    let d = rsub(q, &oq);
    if p.iter().any(|v| rcross(&rsub(v, &oq), &d).is_zero()) { continue }
    let (lp, lv) = (locate_rat(&p, q), locate_rat(&v, q));
    if lp == Loc::On || lv == Loc::On { continue }
    let sees = lp == Loc::In && seg_inside(&p, &oq, q);
    ctx.eval();
    ctx.count(if sees { "seen" } else if lp == Loc::In { "hidden" } else { "outside" });
    ck!(sees == (lv == Loc::In), "{}: point ({}, {}) is {} but {:?} of the result", what(), q[0], q[1], if sees { "visible" } else { "not visible" }, lv);
  }
  ctx.max("vertices", p.len() as f64);
  Ok(())
}
fn viewpoint(r: &mut Rg, p: &[Q]) -> Option<Q> {
  let n = p.len();
  for _ in 0..30 {
    let i = r.below(n);
    let (a, b, c, d) = (r.pick(p).clone(), r.pick(p).clone(), r.pick(p).clone(), r.pick(p).clone());
    let frac = R::new(BigInt::from(r.range(1, 6)), BigInt::from(7));
    let q = match r.below(6) {
      // on a diagonal or edge extension
      0 => at(&a, &rsub(&b, &a), &frac),
      1 => at(&a, &rsub(&b, &a), &R::new(BigInt::from(r.range(-3, 5)), BigInt::from(2))),
      // where two diagonals cross
      2 => {
        let (f, g) = (rsub(&b, &a), rsub(&d, &c));
        let den = rcross(&f, &g);
        if den.is_zero() { continue }
        let t = rcross(&rsub(&c, &a), &g) / den;
        at(&a, &f, &t)
      }
      // level with vertices
      3 => [a[0].clone(), b[1].clone()],
      // close to a vertex
      4 => {
        let (u, w) = (&p[(i + n - 1) % n], &p[(i + 1) % n]);
        let m = [(&u[0] + &w[0]) / int(2), (&u[1] + &w[1]) / int(2)];
        at(&p[i], &rsub(&m, &p[i]), &R::new(BigInt::from(1), BigInt::from(r.range(2, 50))))
      }
      _ => [(&a[0] + &b[0] + &c[0]) / int(3), (&a[1] + &b[1] + &c[1]) / int(3)],
    };
    if locate_rat(p, &q) == Loc::In { return Some(q) }
  }
  None
}
fn go(ctx: &mut Ctx, r: &mut Rg, p: &Polygon<R>) -> Res {
  let q: Vec<Q> = boundary(p).iter().map(rpt).collect();
  for _ in 0..3 {
    if let Some(o) = viewpoint(r, &q) {
      ctx.nontrivial((key(&boundary(p)), format!("{:?}", o)));
      run(ctx, r, p, &Point::new(o))?;
    }
  }
  Ok(())
}
fn random(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = if r.chance(1, 6) { 25 } else { 14 };
  let p: Polygon<R> = any_poly(r, n);
  ctx.sample(|| show(&boundary(&p)));
  go(ctx, r, &p)
}
fn small(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for _ in 0..60 {
    let w = r.range(1, 5);
    let n = 3 + r.below(14);
    let v = match r.below(4) {
      0 => simple_poly(r, n, w),
      1 => { let v = simple_poly(r, n, 4); v.iter().map(|p| [p[0] * 2, p[1] * 2]).collect() }
      _ => {
        let mut g = grid(w.min(3));
        r.shuffle(&mut g);
        let k = 3 + r.below(7.min(g.len() - 2));
        let mut v = g[..k].to_vec();
        let x = x128(&v);
        if !is_simple(&x) { continue }
        if area2(&x) < 0 { v.reverse() }
        v
      }
    };
    let pts = Emb::id().all::<R>(&v).unwrap();
    let (p, _) = build(r, &pts);
    ctx.count("small");
    return go(ctx, r, &p);
  }
  Ok(())
}
/// Lattice viewpoints in lattice polygons: many vertices in line.
fn lattice(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = 6 + r.below(16);
  let v = simple_poly(r, n, 6);
  let pts = Emb::id().all::<R>(&v).unwrap();
  let (p, _) = build(r, &pts);
  let e = x128(&v);
  let mut inside = vec![];
  for x in -6..=6i128 { for y in -6..=6i128 { if locate(&e, &[x, y]) == Loc::In { inside.push([x as i64, y as i64]) } } }
  if inside.is_empty() { return Ok(()) }
  ctx.nontrivial(v);
  for _ in 0..4 {
    let o = *r.pick(&inside);
    ctx.count("lattice");
    run(ctx, r, &p, &Emb::id().put::<R>(&o).unwrap())?;
  }
  Ok(())
}
/// Around a hundred vertices.
fn big(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 40, if ctx.tier == Tier::Quick { 150 } else { 300 });
  let v = big_simple(r, n);
  let pts = Emb::id().all::<R>(&v).unwrap();
  let (p, _) = build(r, &pts);
  let q: Vec<Q> = boundary(&p).iter().map(rpt).collect();
  let Some(o) = viewpoint(r, &q) else { return Ok(()) };
  ctx.nontrivial((v, format!("{:?}", o)));
  ctx.count("big");
  run(ctx, r, &p, &Point::new(o))
}
fn main() {
  engine::run_main(Property {
    id: "C24",
    rule: "a case is non-trivial and distinct by its polygon and viewpoint",
    assumptions: &["polygons without holes (the only kind the library builds)"],
    families: vec![
      Family { name: "random", quick: 900, thorough: 200000, f: random },
      Family { name: "small", quick: 1500, thorough: 300000, f: small },
      Family { name: "lattice", quick: 700, thorough: 200000, f: lattice },
      Family { name: "big", quick: 60, thorough: 8000, f: big },
    ],
    require: &["vertices_in_line", "sees_everything", "partly_hidden", "seen", "hidden", "outside", "small", "lattice", "big"],
  })
}
