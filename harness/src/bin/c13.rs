use rgeometry::data::Point;
use rgmon::gen::*;
use rgmon::hulls::*;
use rgmon::sc::Sc;
use rgmon::*;

fn run<S: Sc>(ctx: &mut Ctx, pts: &[Point<S>]) -> Res {
  let got = rgeometry::algorithms::convex_hull(pts.to_vec());
  ctx.nontrivial(key(pts));
  check_hull(ctx, pts, &got)
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let n = match r.below(10) { 0 => r.below(4), 1 => 20 + r.below(60), 2 if ctx.tier == Tier::Thorough => 100 + r.below(200), _ => 3 + r.below(12) };
  let v = point_set(r, n, lim);
  let Some((pts, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
  ctx.sample(|| show(&pts));
  run(ctx, &pts)?;
  // the same set in another order and with repetitions
  let w = variant(r, &pts);
  run(ctx, &w)
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
fn raw<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = r.below(9);
  let mut pts = raw_points::<S>(r, n);
  if r.chance(1, 4) { pts = variant(r, &pts) }
  ctx.count("raw");
  run(ctx, &pts)
}
fn fam_raw(ctx: &mut Ctx) -> Res {
  all_types!(ctx, raw)
}
/// Every sequence of up to five points of the 3x3 lattice, then longer ones.
fn lattice(ctx: &mut Ctx) -> Res {
  for i in 0..81 {
    let v = lattice_seq(ctx.case * 81 + i, 7);
    let pts = Emb::id().all::<i32>(&v).unwrap();
    let got = rgeometry::algorithms::convex_hull(pts.to_vec());
    check_hull(ctx, &pts, &got)?;
  }
  ctx.nontrivial(ctx.case);
  ctx.count("lattice");
  Ok(())
}
fn small<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for _ in 0..8 {
    let w = r.range(1, 4);
    let n = 3 + r.below(14);
    let v: Vec<V> = (0..n).map(|_| [r.range(-w, w), r.range(-w, w)]).collect();
    let pts = Emb::id().all::<S>(&v).unwrap();
    run(ctx, &pts)?;
  }
  Ok(())
}
fn fam_small(ctx: &mut Ctx) -> Res {
  all_types!(ctx, small)
}
/// Long inputs.
fn large<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let n = 100 + r.below(1500);
  let v = point_set(r, n, lim);
  let Some((pts, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
  ctx.count("large");
  run(ctx, &pts)
}
fn fam_large(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, large, [i8, i32, i64, BigInt, f64])
}
/// Long structured lists with the rare features anywhere.
fn big<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 60, if ctx.tier == Tier::Quick { 6000 } else { 18000 });
  let v = big_points(r, n);
  let Some((pts, _)) = place_big::<S>(r, &v, &[]) else { return Ok(()) };
  ctx.count("big");
  run(ctx, &pts)
}
fn fam_big(ctx: &mut Ctx) -> Res {
  fast_types!(ctx, big)
}
/// More points than sixteen bits count.
fn huge<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = huge_n(r);
  let v = if r.chance(1, 2) { big_points(r, n) } else {
    let mut v = huge_simple(r, n);
    if r.chance(1, 2) { r.shuffle(&mut v) }
    v
  };
  let Some(pts) = Emb::id().all::<S>(&v) else { return Ok(()) };
  ctx.count("huge");
  run(ctx, &pts)
}
fn fam_huge(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, huge, [i32, i64, isize])
}
fn main() {
  engine::run_main(Property {
    id: "C13",
    rule: "a case is non-trivial and distinct by its point list",
    assumptions: &["float coordinates stay where intermediate products neither overflow nor underflow"],
    families: vec![
      Family { name: "lattice", quick: 822, thorough: 60000, f: lattice },
      Family { name: "random", quick: 37500, thorough: 2000000, f: fam_random },
      Family { name: "small", quick: 8000, thorough: 600000, f: fam_small },
      Family { name: "raw", quick: 30000, thorough: 1000000, f: fam_raw },
      Family { name: "large", quick: 225, thorough: 6000, f: fam_large },
      Family { name: "big", quick: 300, thorough: 10000, f: fam_big },
      Family { name: "huge", quick: 8, thorough: 300, f: fam_huge },
    ],
    require: &["hulls", "degenerate", "hulls_with_interior_points", "inputs_with_duplicates", "lattice", "raw", "large", "big", "huge"],
  })
}
