use num_traits::Signed;
use rgeometry::data::{Point, Polygon};
use rgeometry::Error;
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::sc::Sc;
use rgmon::*;

fn check<S: Sc>(ctx: &mut Ctx, pts: &[Point<S>]) -> Res {
  let n = pts.len();
  let raw = Polygon::new_unchecked(pts.to_vec());
  let made = Polygon::new(pts.to_vec());
  let mut all = pts.to_vec();
  if let Ok(p) = &made {
    all.extend(boundary(p));
  }
  ctx.evals(3);
  with_ex!(exact(&all), q => {
    let (src, got) = q.split_at(n);
    let dups = has_dups(src);
    let simple = is_simple(src);
    let ccw = n >= 3 && area2(src).is_positive();
    ctx.count(if simple { if ccw { "simple_ccw" } else { "simple_cw" } } else if dups { "duplicates" } else if n < 3 { "too_few" } else if all_colinear(src) { "all_colinear" } else { "self_touching" });
    match &made {
      Ok(p) => {
        ck!(simple, "Polygon::new accepts {}", show(pts));
        ck!(area2(got).is_positive(), "Polygon::new of {} runs clockwise", show(pts));
        let want = if ccw { src.to_vec() } else { reversed(src) };
        ck!(is_rotation(&want, got), "Polygon::new of {} has boundary {}", show(pts), show(&boundary(p)));
        ck!(p.validate().is_ok(), "Polygon::new of {} does not validate", show(pts));
        // the same identifiers name the same points
        ck!(p.iter().zip(pts).all(|(a, b)| a == b) && p.iter().count() == n, "Polygon::new of {} changed the points behind its identifiers", show(pts));
      }
      Err(e) => {
        ck!(!simple, "Polygon::new rejects {} with {:?}", show(pts), e);
        if n < 3 {
          ck!(matches!(e, Error::InsufficientVertices), "Polygon::new of {} reports {:?}", show(pts), e);
        } else if dups {
          ck!(matches!(e, Error::DuplicatePoints | Error::CoLinearViolation), "Polygon::new of {} reports {:?}", show(pts), e);
        } else {
          ck!(!matches!(e, Error::DuplicatePoints | Error::InsufficientVertices), "Polygon::new of {} reports {:?}", show(pts), e);
        }
      }
    }
    let v = raw.validate();
    let want = simple && ccw;
    ck!(v.is_ok() == want, "validate of {} says {:?}", show(pts), v);
    if let Err(e) = v {
      if dups {
        ck!(matches!(e, Error::DuplicatePoints), "validate of {} reports {:?}", show(pts), e);
      } else if n < 3 {
        ck!(matches!(e, Error::InsufficientVertices), "validate of {} reports {:?}", show(pts), e);
      } else if simple {
        ck!(matches!(e, Error::ClockWiseViolation), "validate of {} reports {:?}", show(pts), e);
      } else {
        ck!(matches!(e, Error::ClockWiseViolation | Error::SelfIntersections), "validate of {} reports {:?}", show(pts), e);
      }
    }
    if !dups {
      let v = raw.validate_weakly();
      ck!(v.is_ok() == want, "validate_weakly of {} says {:?}", show(pts), v);
    }
    // orientation repair alone
    if simple {
      let mut p = rgmon::past::seasoned(&mut ctx.rng.fork(), pts.to_vec());
      ck!(p.ensure_ccw().is_ok(), "ensure_ccw fails on {}", show(pts));
      ck!(p.validate().is_ok(), "{} does not validate after ensure_ccw", show(pts));
      let b: Vec<Vec<S>> = boundary(&p).iter().map(|p| p.array.to_vec()).collect();
      let w: Vec<Vec<S>> = pts.iter().map(|p| p.array.to_vec()).collect();
      let w = if ccw { w } else { reversed(&w) };
      ck!(is_rotation(&w, &b), "ensure_ccw changed {} to {}", show(pts), show(&boundary(&p)));
    }
    Ok(())
  })
}

fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let big = ctx.tier == Tier::Thorough && r.chance(1, 8);
  let n = if big { 30 + r.below(120) } else { r.below(14) };
  let mut v = match r.below(4) {
    0 => point_set(r, n, lim),
    1 => { let s = point_set(r, n, lim.min(4)); distinct(s, r) }
    _ => {
      // a simple polygon with one defect or none
      let mut p = simple_poly(r, n.max(3), lim);
      let k = r.below(p.len());
      match r.below(7) {
        0 => { let j = r.below(p.len()); p.swap(k, j) }
        1 => { let j = r.below(p.len()); p[k] = p[j] }
        2 => {
          // a vertex moved onto some edge or vertex line
          p[k] = query(r, &p, lim)
        }
        3 => { let q = query(r, &p, lim); p.insert(k, q) }
        4 => { let q = p[k]; let j = r.below(p.len() + 1); p.insert(j, q) }
        5 => { let j = r.below(p.len()); let (a, b) = (k.min(j), k.max(j)); p[a..=b].reverse() }
        _ => {}
      }
      p
    }
  };
  if r.chance(1, 2) { v.reverse() }
  let Some((pts, _)) = place::<S>(r, &v, &[], lim) else { return Ok(()) };
  ctx.sample(|| show(&pts));
  ctx.nontrivial(key(&pts));
  check(ctx, &pts)
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
/// Every sequence of up to five vertices from the 3x3 lattice.
fn lattice(ctx: &mut Ctx) -> Res {
  const PER: u64 = 81;
  let mut k0 = ctx.case * PER;
  for _ in 0..PER {
    let mut k = k0;
    k0 += 1;
    let mut len = 0;
    let mut block = 1u64;
    while k >= block && len < 6 {
      k -= block;
      block *= 9;
      len += 1;
    }
    let pts: Vec<Point<i32>> = (0..len).map(|_| { let d = k % 9; k /= 9; Point::new([(d % 3) as i32, (d / 3) as i32]) }).collect();
    check(ctx, &pts)?;
  }
  ctx.nontrivial(ctx.case);
  ctx.count("lattice");
  Ok(())
}
/// Random hexagons to nonagons from small lattices, mostly without repetition.
fn small<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for _ in 0..8 {
    let w = r.range(1, 3);
    let mut g = grid(w);
    r.shuffle(&mut g);
    let n = 3 + r.below(7);
    g.truncate(n);
    if r.chance(1, 8) { let q = *r.pick(&g); g.push(q) }
    let pts = Emb::id().all::<S>(&g).unwrap();
    ctx.nontrivial(key(&pts));
    check(ctx, &pts)?;
  }
  Ok(())
}
fn fam_small(ctx: &mut Ctx) -> Res {
  all_types!(ctx, small)
}
/// Unrelated values at the extremes of the type.
fn raw<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = 3 + r.below(4);
  let pts = raw_points::<S>(r, n);
  ctx.nontrivial(key(&pts));
  ctx.count("raw");
  check(ctx, &pts)
}
fn fam_raw(ctx: &mut Ctx) -> Res {
  all_types!(ctx, raw)
}
/// Hundreds to thousands of vertices with at most one or two defects.
fn big<S: Sc>(ctx: &mut Ctx) -> Res {
  let n = big_n(&mut ctx.rng, 60, if ctx.tier == Tier::Quick { 1100 } else { 2500 });
  sized::<S>(ctx, n)
}
fn sized<S: Sc>(ctx: &mut Ctx, n: usize) -> Res {
  let r = &mut ctx.rng.fork();
  let mut p = big_simple(r, n);
  let m = p.len();
  let (k, j) = (r.below(m), match r.below(3) { 0 => m - 1, _ => r.below(m) });
  match r.below(9) {
    0 => p[k] = p[j],
    1 => p[j] = p[(j + m - 1) % m],
    2 => p.swap(k, j),
    3 => { let q = query(r, &p, 1 << 20); p[j] = q }
    4 => { let q = p[k]; p.insert(j, q) }
    5 => { let (a, b) = (k.min(j), k.max(j)); p[a..=b].reverse() }
    _ => {}
  }
  if r.chance(1, 2) { p.reverse() }
  let Some((pts, _)) = place_big::<S>(r, &p, &[]) else { return Ok(()) };
  ctx.nontrivial(key(&pts));
  ctx.count("big");
  ctx.max("vertices", pts.len() as f64);
  check(ctx, &pts)
}
fn fam_big(ctx: &mut Ctx) -> Res {
  fast_types!(ctx, big)
}
fn large<S: Sc>(ctx: &mut Ctx) -> Res {
  let n = big_n(&mut ctx.rng, 1000, if ctx.tier == Tier::Quick { 5000 } else { 9000 });
  ctx.count("large");
  sized::<S>(ctx, n)
}
fn fam_large(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, large, [i32, i64, isize, f64])
}
fn main() {
  engine::run_main(Property {
    id: "C09",
    rule: "a case is non-trivial and distinct by its vertex list",
    assumptions: &["float coordinates stay where intermediate products neither overflow nor underflow"],
    families: vec![
      Family { name: "lattice", quick: 822, thorough: 7300, f: lattice },
      Family { name: "random", quick: 160000, thorough: 3000000, f: fam_random },
      Family { name: "small", quick: 10000, thorough: 1000000, f: fam_small },
      Family { name: "raw", quick: 40000, thorough: 600000, f: fam_raw },
      Family { name: "big", quick: 480, thorough: 6000, f: fam_big },
      Family { name: "large", quick: 96, thorough: 600, f: fam_large },
    ],
    require: &["simple_ccw", "simple_cw", "duplicates", "too_few", "all_colinear", "self_touching", "lattice", "raw", "big", "large"],
  })
}
