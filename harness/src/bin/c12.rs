use num_traits::{FromPrimitive, NumOps, ToPrimitive};
use rgeometry::data::{Point, PointLocation, Triangle, TriangleView};
use rgeometry::Orientation;
use rgmon::common::*;
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::rng::*;
use rgmon::sc::{rpt, Sc};
use rgmon::*;
use std::collections::HashSet;

fn pl(l: Loc) -> PointLocation {
  match l { Loc::In => PointLocation::Inside, Loc::On => PointLocation::OnBoundary, Loc::Out => PointLocation::Outside }
}
fn same<S: Sc>(a: &Point<S>, b: &Point<S>) -> bool {
  a.array[0] == b.array[0] && a.array[1] == b.array[1]
}
fn check<S: Sc>(ctx: &mut Ctx, t: [Point<S>; 3], qs: &[Point<S>]) -> Res {
  let mut all = t.to_vec();
  all.extend(qs.iter().cloned());
  let e = exact(&all);
  with_ex!(e, e => {
    let (v, q) = e.split_at(3);
    let o = orient(&v[0], &v[1], &v[2]);
    ctx.count(match o { 1 => "ccw", -1 => "cw", _ => "colinear" });
    ctx.evals(6);
    let made = Triangle::new(t.clone());
    ck!(made.is_ok() == (o > 0), "Triangle::new of {} is {:?}", show(&t), made.as_ref().err());
    let [a, b, c] = &t;
    let view = TriangleView::new([a, b, c]);
    ck!(view.is_ok() == (o > 0), "TriangleView::new of {} accepted: {}", show(&t), view.is_ok());
    let un = TriangleView::new_unchecked([a, b, c]);
    ck!(un.orientation() == ori(o), "orientation of triangle {} is {:?}", show(&t), un.orientation());
    ck!(un.validate().is_ok() == (o > 0), "validate of triangle {}", show(&t));
    let (lo, hi) = un.bounding_box();
    // exact box
    let r: Vec<_> = t.iter().map(rpt).collect();
    for k in 0..2 {
      let (mn, mx) = (r.iter().map(|p| &p[k]).min().unwrap(), r.iter().map(|p| &p[k]).max().unwrap());
      ck!(lo.array[k].rat() == *mn && hi.array[k].rat() == *mx, "bounding box of triangle {} is {} {}", show(&t), show(&[lo.clone()]), show(&[hi.clone()]));
    }
    if o != 0 {
      let n = TriangleView::new_ccw([a, b, c]);
      ck!(n.orientation() == Orientation::CounterClockWise, "TriangleView::new_ccw of {} does not turn left", show(&t));
      let m = Triangle::new_ccw(t.clone());
      ck!(m.validate().is_ok() && m.view().orientation() == Orientation::CounterClockWise, "Triangle::new_ccw of {} does not turn left", show(&t));
      // same three points: same box, same area
      let (l2, h2) = n.bounding_box();
      let (l3, h3) = m.view().bounding_box();
      ck!(same(&l2, &lo) && same(&h2, &hi) && same(&l3, &lo) && same(&h3, &hi), "new_ccw of {} has another bounding box", show(&t));
      let tri = if o > 0 { v.to_vec() } else { reversed(v) };
      for (i, x) in q.iter().chain(v.iter()).enumerate() {
        let w = locate(&tri, x);
        ctx.evals(2);
        ctx.count(match w { Loc::In => "inside", Loc::On => "boundary", Loc::Out => "outside" });
        let p = if i < qs.len() { &qs[i] } else { &t[i - qs.len()] };
        let g = (n.locate(p), m.locate(p));
        ck!(g.0 == pl(w) && g.1 == pl(w), "locate of {} in triangle {} is {:?}, exactly {:?}", show(&[p.clone()]), show(&t), g, w);
        if o > 0 {
          let g = made.as_ref().unwrap().locate(p);
          ck!(g == pl(w), "locate of {} in triangle {} is {:?}, exactly {:?}", show(&[p.clone()]), show(&t), g, w);
        }
      }
    }
    Ok(())
  })
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let t = raw_points::<S>(r, 3);
  let mut qs = raw_points::<S>(r, 5);
  for _ in 0..6 { let (a, b) = (r.below(3), r.below(3)); qs.push(Point::new([t[a].array[0].clone(), t[b].array[1].clone()])) }
  ctx.sample(|| show(&t));
  ctx.nontrivial(key(&t));
  check(ctx, [t[0].clone(), t[1].clone(), t[2].clone()], &qs)
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
fn lattice<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let w = r.range(1, 5);
  let t: Vec<V> = (0..3).map(|_| [r.range(0, w), r.range(0, w)]).collect();
  let mut qs = vec![];
  for x in -1..=w + 1 { for y in -1..=w + 1 { qs.push([x, y]) } }
  let Some((t, qs)) = place::<S>(r, &t, &qs, w + 1) else { return Ok(()) };
  ctx.nontrivial(key(&t));
  ctx.count("lattice");
  check(ctx, [t[0].clone(), t[1].clone(), t[2].clone()], &qs)
}
fn fam_lattice(ctx: &mut Ctx) -> Res {
  all_types!(ctx, lattice)
}
/// Areas in result types that hold them.
fn area<S: Sc + Into<F>, F: NumOps<F, F> + FromPrimitive + Clone + PartialEq + std::fmt::Debug>(r: &mut Rg, f: fn(BigRational) -> Option<F>, halves: bool) -> Res {
  let t = raw_points::<S>(r, 3);
  let v: Vec<_> = t.iter().map(rpt).collect();
  let want = rcross(&rsub(&v[1], &v[0]), &rsub(&v[2], &v[0]));
  let un = TriangleView::new_unchecked([&t[0], &t[1], &t[2]]);
  if let Some(w) = f(want.clone()) {
    let g: F = un.signed_area_2x();
    ck!(g == w, "doubled area of {} is {:?}, exactly {}", show(&t), g, want);
    let half = if halves { f(want.clone() / BigRational::from_integer(2.into())) } else { f((want.clone() / BigRational::from_integer(2.into())).trunc()) };
    if let Some(w) = half {
      let g: F = un.signed_area();
      ck!(g == w, "area of {} is {:?}, exactly half of {}", show(&t), g, want);
    }
  }
  Ok(())
}
fn fam_area(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  ctx.eval();
  ctx.count("areas");
  let k = r.below(7);
  ctx.nontrivial((k, ctx.case));
  match k {
    0 => area::<i8, i64>(r, |x| x.to_integer().to_i64(), false),
    1 => area::<i16, i64>(r, |x| x.to_integer().to_i64(), false),
    2 => area::<i32, i128>(r, |x| x.to_integer().to_i128(), false),
    3 => area::<i64, BigInt>(r, |x| Some(x.to_integer()), false),
    4 => area::<BigInt, BigInt>(r, |x| Some(x.to_integer()), false),
    5 => area::<BigInt, BigRational>(r, Some, true),
    _ => area::<BigRational, BigRational>(r, Some, true),
  }
}
/// Number of integer points of the closed triangle, 0 if its box is large.
fn lattice_points<N: Nm>(e: &[P<N>]) -> usize {
  let lim = |k: usize| (e.iter().map(|p| p[k].clone()).min().unwrap(), e.iter().map(|p| p[k].clone()).max().unwrap());
  let ((x0, x1), (y0, y1)) = (lim(0), lim(1));
  let one = N::of(1);
  if (x1.clone() - x0.clone()) * (y1.clone() - y0.clone()) > N::of(144) { return 0 }
  let mut n = 0;
  let mut x = x0;
  while x <= x1 {
    let mut y = y0.clone();
    while y <= y1 {
      if locate(e, &[x.clone(), y.clone()]) != Loc::Out { n += 1 }
      y = y + one.clone()
    }
    x = x + one.clone()
  }
  n
}
/// Random samples stay in the closed triangle and reach every lattice point.
fn sampling<S: Sc + rand::distributions::uniform::SampleUniform>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let fixed = S::KIND == sc::Kind::Fixed;
  let lim = if r.chance(1, 2) { r.range(1, 5) } else { lim_for::<S>(r).min(1 << 45) };
  for _ in 0..20 {
    let v: Vec<V> = (0..3).map(|_| [r.range(-lim, lim), r.range(-lim, lim)]).collect();
    let mut t = x128(&v);
    let a = area2(&t);
    // avoid slivers, which reject almost every sample
    let bx = [0, 1].map(|k| t.iter().map(|p| p[k]).max().unwrap() - t.iter().map(|p| p[k]).min().unwrap());
    if a == 0 || a.abs().saturating_mul(50) < bx[0] * bx[1] { continue }
    if a < 0 { t.reverse() }
    let v: Vec<V> = t.iter().map(|p| [p[0] as i64, p[1] as i64]).collect();
    let Some((pts, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
    let view = TriangleView::new([&pts[0], &pts[1], &pts[2]]).map_err(|e| format!("{:?} rejects {}", e, show(&pts)))?;
    let small = fixed && lim <= 5;
    let mut g = r.fork();
    let mut seen: HashSet<Vec<String>> = HashSet::new();
    let tri = if small { with_ex!(exact(&pts), e => lattice_points(e)) } else { 0 };
    let rounds = if tri > 0 { 40 * 121 } else { 30 };
    for k in 0..rounds {
      let p = view.rejection_sampling(&mut g);
      ctx.eval();
      let mut all = pts.clone();
      all.push(p.clone());
      let l = with_ex!(exact(&all), e => locate(&e[..3], &e[3]));
      ck!(l != Loc::Out, "sample {} lies outside triangle {}", show(&[p]), show(&pts));
      ctx.count("samples");
      if tri > 0 {
        seen.insert(p.array.iter().map(|c| format!("{:?}", c)).collect());
        if k > 50 && seen.len() == tri { break }
      }
    }
    if tri > 0 {
      ck!(seen.len() == tri, "samples of triangle {} reach {} of {} lattice points in {} tries", show(&pts), seen.len(), tri, rounds);
      ctx.count("fully_reached");
    }
    // whatever the stream does before it becomes fair
    for _ in 0..4 {
      let mut h = Hostile::late(r);
      for _ in 0..2 {
        let p = view.rejection_sampling(&mut h);
        ctx.eval();
        let mut all = pts.clone();
        all.push(p.clone());
        let l = with_ex!(exact(&all), e => locate(&e[..3], &e[3]));
        ck!(l != Loc::Out, "sample {} over a late stream lies outside triangle {}", show(&[p]), show(&pts));
        ctx.count("late_samples");
      }
    }
    ctx.nontrivial(key(&pts));
    return Ok(());
  }
  Ok(())
}
fn fam_sampling(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, sampling, [i8, i16, i32, i64, isize, f32, f64])
}
fn main() {
  engine::run_main(Property {
    id: "C12",
    rule: "a case is non-trivial and distinct by its triangle",
    assumptions: &["random streams become fair after at most a few thousand words", "float coordinates stay where intermediate products neither overflow nor underflow"],
    families: vec![
      Family { name: "random", quick: 180000, thorough: 4000000, f: fam_random },
      Family { name: "lattice", quick: 8000, thorough: 500000, f: fam_lattice },
      Family { name: "area", quick: 90000, thorough: 2000000, f: fam_area },
      Family { name: "sampling", quick: 12000, thorough: 100000, f: fam_sampling },
    ],
    require: &["ccw", "cw", "colinear", "inside", "boundary", "outside", "lattice", "areas", "samples", "late_samples", "fully_reached"],
  })
}
