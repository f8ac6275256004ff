use rgeometry::algorithms::convex_hull::melkman;
use rgeometry::data::{Point, Polygon, PolygonConvex};
use rgeometry::Error;
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::hulls::*;
use rgmon::sc::Sc;
use rgmon::*;

fn run<S: Sc>(ctx: &mut Ctx, p: &Polygon<S>) -> Res {
  let b = boundary(p);
  ctx.nontrivial(key(&b));
  ctx.max("polygon vertices", b.len() as f64);
  let ordered = p.boundary_slice().windows(2).all(|w| w[0].usize() + 1 == w[1].usize());
  ctx.count(if ordered { "numbered_along_boundary" } else { "numbered_otherwise" });
  let straight = with_ex!(exact(&b), e => (0..e.len()).any(|i| orient(&e[i], &e[(i + 1) % e.len()], &e[(i + 2) % e.len()]) == 0));
  if straight { ctx.count("colinear_runs") }
  let got: Result<PolygonConvex<S>, Error> = Ok(no_panic(|| melkman::convex_hull(p)).map_err(|m| format!("hull of polygon {} {}", show(&b), m))?);
  check_hull(ctx, &b, &got)
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let n = match r.below(10) { 0 => 20 + r.below(80), _ => 3 + r.below(14) };
  let v = simple_poly(r, n, lim);
  let Some((pts, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
  ctx.sample(|| show(&pts));
  let (p, via) = build(r, &pts);
  ctx.count(&format!("via {:?}", via));
  run(ctx, &p)
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
/// All starting vertices and both internal numberings of one polygon.
fn rotations<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = 3 + r.below(12);
  let lim = 1 + r.below(8) as i64;
  let v = simple_poly(r, n, lim);
  for k in 0..v.len() {
    let mut w = v.clone();
    w.rotate_left(k);
    let mut pts = Emb::id().all::<S>(&w).unwrap();
    run(ctx, &rgmon::past::seasoned(r, pts.clone()))?;
    pts.reverse();
    let p = Polygon::new(pts.clone()).map_err(|e| format!("Polygon::new rejects {} with {:?}", show(&pts), e))?;
    run(ctx, &p)?;
  }
  ctx.count("rotations");
  Ok(())
}
fn fam_rotations(ctx: &mut Ctx) -> Res {
  all_types!(ctx, rotations)
}
fn scrambled<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let n = 3 + r.below(16);
  let Some(p) = tangled::<S>(r, n, lim) else { return Ok(()) };
  ctx.count("scrambled");
  run(ctx, &p)
}
fn fam_scrambled(ctx: &mut Ctx) -> Res {
  all_types!(ctx, scrambled)
}
/// Simple polygons on tiny lattices: dense in colinear and touching-line cases.
fn lattice<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let w = r.range(1, 3);
  let mut g = grid(w);
  let mut done = 0;
  for _ in 0..200 {
    r.shuffle(&mut g);
    let n = 3 + r.below(8.min(g.len() - 2));
    let mut v: Vec<V> = g[..n].to_vec();
    let x = x128(&v);
    if !is_simple(&x) { continue }
    if area2(&x) < 0 { v.reverse() }
    let pts: Vec<Point<S>> = Emb::id().all(&v).unwrap();
    let (p, _) = build(r, &pts);
    run(ctx, &p)?;
    done += 1;
    if done > 3 { break }
  }
  ctx.count("lattice");
  Ok(())
}
fn fam_lattice(ctx: &mut Ctx) -> Res {
  all_types!(ctx, lattice)
}
/// Hundreds to thousands of vertices.
fn big<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 60, if ctx.tier == Tier::Quick { 3000 } else { 9000 });
  let Some(p) = big_poly::<S>(r, n) else { return Ok(()) };
  ctx.count("big");
  run(ctx, &p)
}
fn fam_big(ctx: &mut Ctx) -> Res {
  fast_types!(ctx, big)
}
/// More vertices than sixteen bits count.
fn huge<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = huge_n(r);
  let v = huge_simple(r, n);
  let Some(pts) = Emb::id().all::<S>(&v) else { return Ok(()) };
  ctx.count("huge");
  run(ctx, &build_huge(r, &pts))
}
fn fam_huge(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, huge, [i32, i64, f64])
}
fn main() {
  engine::run_main(Property {
    id: "C15",
    rule: "a case is non-trivial and distinct by its boundary",
    assumptions: &["float coordinates stay where intermediate products neither overflow nor underflow"],
    families: vec![
      Family { name: "random", quick: 120000, thorough: 2500000, f: fam_random },
      Family { name: "rotations", quick: 9000, thorough: 150000, f: fam_rotations },
      Family { name: "scrambled", quick: 18000, thorough: 300000, f: fam_scrambled },
      Family { name: "lattice", quick: 8000, thorough: 600000, f: fam_lattice },
      Family { name: "big", quick: 600, thorough: 10000, f: fam_big },
      Family { name: "huge", quick: 8, thorough: 300, f: fam_huge },
    ],
    require: &["hulls", "hulls_with_interior_points", "colinear_runs", "numbered_along_boundary", "numbered_otherwise", "rotations", "scrambled", "lattice", "big", "huge", "via NewReversed"],
  })
}
