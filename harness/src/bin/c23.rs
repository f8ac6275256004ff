use rgeometry::algorithms::polygonization::new_star_polygon;
use rgeometry::data::Point;
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::sc::Sc;
use rgmon::*;

fn run<S: Sc>(ctx: &mut Ctx, pts: &[Point<S>], c: &Point<S>) -> Res {
  let got = new_star_polygon(pts.to_vec(), c);
  ctx.eval();
  let n = pts.len();
  let mut all = pts.to_vec();
  all.push(c.clone());
  if let Ok(p) = &got { all.extend(boundary(p)) }
  with_ex!(exact(&all), e => {
    let (q, o, b) = (&e[..n], &e[n], &e[n + 1..]);
    let what = || format!("new_star_polygon({}, {})", show(pts), show(&[c.clone()]));
    let z = one_zero(o);
    // directions sorted by exact angle
    let mut dirs: Vec<_> = q.iter().map(|p| sub(p, o)).collect();
    dirs.sort_by(|a, b| cmp_angle(&z, a, b));
    let at_centre = q.iter().any(|p| p == o);
    let distinct = dirs.windows(2).all(|w| cmp_angle(&z, &w[0], &w[1]).is_ne());
    let gapless = n >= 3 && (0..n).all(|i| sgn(&vcross(&dirs[i], &dirs[(i + 1) % n])) > 0);
    let must = !at_centre && distinct && gapless;
    match &got {
      Err(er) => {
        ck!(!must, "{} failed with {:?}", what(), er);
        ctx.count("failed");
      }
      Ok(p) => {
        let bp = boundary(p);
        ck!(b.len() == n, "{} has {} vertices", what(), b.len());
        let (mut x, mut y) = (q.to_vec(), b.to_vec());
        x.sort();
        y.sort();
        ck!(x == y, "{} has vertices {}", what(), show(&bp));
        ck!(is_simple(b), "{} is not simple: {}", what(), show(&bp));
        ck!(sgn(&area2(b)) > 0, "{} is clockwise: {}", what(), show(&bp));
        // in angular order around the centre: some rotation is sorted; a
        // clockwise order is reversed by the constructor
        let sorted = |s: &[P<_>]| (0..n).any(|k| (0..n - 1).all(|i| {
          let (u, v) = (sub(&s[(i + k) % n], o), sub(&s[(i + k + 1) % n], o));
          cmp_angle(&z, &u, &v).is_le()
        }));
        ck!(sorted(b) || sorted(&reversed(b)), "{} is not in angular order: {}", what(), show(&bp));
        if must {
          ck!(sorted(b), "{} is not in counter-clockwise angular order: {}", what(), show(&bp));
          ck!(locate(b, o) == Loc::In, "{}: centre not inside {}", what(), show(&bp));
          // every segment from the centre to a vertex stays inside: no boundary
          // edge is met before the vertex
          for (i, v) in b.iter().enumerate() {
            for j in 0..n {
              let k = (j + 1) % n;
              if j == i || k == i { continue }
              ck!(!segs_meet(o, v, &b[j], &b[k]), "{}: segment to vertex {:?} leaves {}", what(), v, show(&bp));
            }
          }
          ctx.count("star");
        } else {
          ctx.count("succeeded_degenerate");
        }
        ctx.max("vertices", n as f64);
      }
    }
    Ok(())
  })
}
fn one_zero<N: Nm>(_: &P<N>) -> P<N> {
  [N::of(1), N::of(0)]
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let n = match r.below(12) { 0 => r.below(4), 1 => 15 + r.below(40), _ => 3 + r.below(10) };
  let mut v = point_set(r, n, lim);
  let c: V = match r.below(4) {
    0 => [0, 0],
    1 if !v.is_empty() => *r.pick(&v),
    2 if v.len() > 2 => {
      let (a, b, c) = (*r.pick(&v), *r.pick(&v), *r.pick(&v));
      [((a[0] as i128 + b[0] as i128 + c[0] as i128) / 3) as i64, ((a[1] as i128 + b[1] as i128 + c[1] as i128) / 3) as i64]
    }
    _ => [r.range(-lim, lim), r.range(-lim, lim)],
  };
  if r.chance(2, 3) {
    // pairwise different directions
    let x = |p: &V| [p[0] as i128 - c[0] as i128, p[1] as i128 - c[1] as i128];
    let z = [1i128, 0];
    v.retain(|p| *p != c);
    v.sort_by(|a, b| cmp_angle(&z, &x(a), &x(b)));
    v.dedup_by(|a, b| cmp_angle(&z, &x(a), &x(b)).is_eq());
    r.shuffle(&mut v);
  }
  let Some((pts, cc)) = place::<S>(r, &v, &[c], lim) else { return Ok(()) };
  ctx.sample(|| show(&pts));
  ctx.nontrivial((key(&pts), key(&cc)));
  run(ctx, &pts, &cc[0])
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
fn raw<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = r.below(8) + 1;
  let mut pts = raw_points::<S>(r, n);
  let c = pts.pop().unwrap();
  ctx.nontrivial((key(&pts), key(&[c.clone()])));
  ctx.count("raw");
  run(ctx, &pts, &c)
}
fn fam_raw(ctx: &mut Ctx) -> Res {
  all_types!(ctx, raw)
}
fn small<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  for _ in 0..12 {
    let w = r.range(1, 3);
    let n = 3 + r.below(6);
    let v: Vec<V> = (0..n).map(|_| [r.range(-w, w), r.range(-w, w)]).collect();
    let (pts, cc) = place::<S>(r, &v, &[[0, 0]], w).unwrap();
    ctx.nontrivial((key(&pts), key(&cc)));
    run(ctx, &pts, &cc[0])?;
  }
  ctx.count("small");
  Ok(())
}
fn fam_small(ctx: &mut Ctx) -> Res {
  all_types!(ctx, small)
}
fn big<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 60, if ctx.tier == Tier::Quick { 500 } else { 1500 });
  let mut v = big_points(r, n);
  let c = match r.below(3) { 0 => [0, 0], 1 => *r.pick(&v), _ => [r.range(-50, 50), r.range(-50, 50)] };
  if r.chance(3, 4) {
    let x = |p: &V| [p[0] as i128 - c[0] as i128, p[1] as i128 - c[1] as i128];
    let z = [1i128, 0];
    v.retain(|p| *p != c);
    v.sort_by(|a, b| cmp_angle(&z, &x(a), &x(b)));
    v.dedup_by(|a, b| cmp_angle(&z, &x(a), &x(b)).is_eq());
    r.shuffle(&mut v);
  }
  let Some((pts, cc)) = place_big::<S>(r, &v, &[c]) else { return Ok(()) };
  ctx.nontrivial((key(&pts), key(&cc)));
  ctx.count("big");
  run(ctx, &pts, &cc[0])
}
fn fam_big(ctx: &mut Ctx) -> Res {
  fast_types!(ctx, big)
}
/// Thousands of points, each in a direction of its own and no gap of half a turn.
fn large<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 500, if ctx.tier == Tier::Quick { 4200 } else { 9000 });
  let c: V = match r.below(3) { 0 => [0, 0], _ => [r.range(-5000, 5000), r.range(-5000, 5000)] };
  let w = *r.pick(&[200i64, 1 << 12, 1 << 20]);
  let o = |p: &V| [p[0] as i128, p[1] as i128];
  let z = [1i128, 0];
  let mut d: Vec<V> = (0..n).map(|_| if r.chance(1, 3) { let k = r.range(1, 40); [r.range(-k, k), r.range(-k, k)] } else { [r.range(-w, w), r.range(-w, w)] }).collect();
  d.extend([[1, 0], [0, 1], [-1, 0], [0, -1]]);
  r.shuffle(&mut d);
  d.retain(|p| *p != [0, 0]);
  d.sort_by(|a, b| cmp_angle(&z, &o(a), &o(b)));
  d.dedup_by(|a, b| cmp_angle(&z, &o(a), &o(b)).is_eq());
  let want: Vec<V> = d.iter().map(|p| [p[0] + c[0], p[1] + c[1]]).collect();
  let mut v = want.clone();
  match r.below(4) { 0 => {} 1 => v.reverse(), _ => r.shuffle(&mut v) }
  let (Some(pts), Some(cc)) = (Emb::id().all::<S>(&v), Emb::id().all::<S>(&[c])) else { return Ok(()) };
  ctx.nontrivial((key(&pts), key(&cc)));
  let p = match new_star_polygon(pts.clone(), &cc[0]) {
    Ok(p) => p,
    Err(e) => return Err(format!("new_star_polygon of {} points around {:?} failed with {:?}", pts.len(), c, e)),
  };
  ctx.eval();
  let (b, w) = (boundary(&p), Emb::id().all::<S>(&want).unwrap());
  let k = |v: &[Point<S>]| -> Vec<_> { v.iter().map(sc::rpt).collect() };
  ck!(is_rotation(&k(&b), &k(&w)), "new_star_polygon of {} points around {:?} is not in counter-clockwise angular order", pts.len(), c);
  ctx.max("vertices", b.len() as f64);
  ctx.count("large");
  Ok(())
}
fn fam_large(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, large, [i32, i64, isize, f64])
}
fn main() {
  engine::run_main(Property {
    id: "C23",
    rule: "a case is non-trivial and distinct by its points and centre",
    assumptions: &["float coordinates stay where intermediate products neither overflow nor underflow"],
    families: vec![
      Family { name: "random", quick: 40000, thorough: 2500000, f: fam_random },
      Family { name: "raw", quick: 20000, thorough: 1000000, f: fam_raw },
      Family { name: "small", quick: 6000, thorough: 400000, f: fam_small },
      Family { name: "big", quick: 150, thorough: 6000, f: fam_big },
      Family { name: "large", quick: 40, thorough: 1000, f: fam_large },
    ],
    require: &["star", "succeeded_degenerate", "failed", "raw", "small", "big", "large"],
  })
}
