use num_traits::Bounded;
use rand::distributions::uniform::SampleUniform;
use rand::distributions::Standard;
use rand::Rng;
use rgeometry::data::PolygonConvex;
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::rng::Hostile;
use rgmon::sc::Sc;
use rgmon::*;
use std::collections::HashSet;

fn stream(r: &mut rng::Rg) -> Hostile {
  loop {
    let h = Hostile::pick(r);
    // an endless stream of zeros describes no polygon
    if !matches!(h, Hostile::Zero) { return h }
  }
}
/// Everything the property says about one sample.
fn judge<S: Sc>(ctx: &mut Ctx, p: &PolygonConvex<S>, n: usize, name: &str) -> Res {
  let b = boundary(p);
  let what = || format!("random({}) over a {} stream: {}", n, name, show(&b));
  ctx.eval();
  ck!(b.len() >= 3 && b.len() <= n.max(3), "{}: {} vertices", what(), b.len());
  ck!(p.iter().count() == b.len(), "{}: {} points are stored", what(), p.iter().count());
  let max = S::MAX as i128;
  let q: Vec<P<i128>> = b.iter().map(|v| [v.array[0].rat().to_integer().try_into().unwrap(), v.array[1].rat().to_integer().try_into().unwrap()]).collect();
  // Every turn exactly left. Turn signs through 65-bit differences fit in i128
  // only up to i32, so go through big integers for wide types.
  let turns = |i: usize| {
    let (a, c, d) = (&q[i], &q[(i + 1) % q.len()], &q[(i + 2) % q.len()]);
    let l = BigInt::from(c[0] - a[0]) * BigInt::from(d[1] - a[1]);
    let r = BigInt::from(c[1] - a[1]) * BigInt::from(d[0] - a[0]);
    l > r
  };
  ck!((0..q.len()).all(turns), "{}: a vertex is not strictly convex", what());
  // With only left turns the boundary is simple exactly when it winds once,
  // that is when the edges change between rising and falling exactly twice.
  let n_ = q.len();
  let up: Vec<bool> = (0..n_).map(|i| { let (a, c) = (&q[i], &q[(i + 1) % n_]); (c[1], -c[0]) > (a[1], -a[0]) }).collect();
  let changes = (0..n_).filter(|&i| up[i] != up[(i + 1) % n_]).count();
  ck!(changes == 2, "{}: the boundary winds {} times", what(), changes / 2);
  let lo = q.iter().min_by_key(|v| (v[1], v[0])).unwrap();
  ck!(*lo == [0, 0], "{}: lowest vertex is {:?}", what(), lo);
  let w = q.iter().map(|v| v[0]).max().unwrap() - q.iter().map(|v| v[0]).min().unwrap();
  let h = q.iter().map(|v| v[1]).max().unwrap();
  ck!(w == max && h == max, "{}: {} wide and {} high, largest coordinate is {}", what(), w, h, max);
  if b.len() < 60 {
    ck!(p.validate().is_ok(), "{}: does not validate", what());
  }
  ctx.count(&format!("stream:{}", name));
  if b.len() == n { ctx.count("all_vertices_used") } else { ctx.count("fewer_vertices") }
  if q.iter().any(|v| v[0] < 0) { ctx.count("left_of_origin") }
  ctx.max("vertices", b.len() as f64);
  ctx.nontrivial(key(&b));
  Ok(())
}
fn one<S: Sc + Bounded + SampleUniform>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = match r.below(10) { 0 => r.below(4), 1..=4 => 3 + r.below(6), 5..=8 => 5 + r.below(60), _ => 60 + r.below(300) };
  let h = stream(r);
  let name = h.name();
  let p = PolygonConvex::<S>::random(n, &mut h.clone());
  ctx.sample(|| format!("random({}) {}: {}", n, name, show(&boundary(&p))));
  judge(ctx, &p, n, name)?;
  // the stream decides
  let again = PolygonConvex::<S>::random(n, &mut h.clone());
  ck!(boundary(&again) == boundary(&p), "random({}) over the same {} stream: {} and {}", n, name, show(&boundary(&p)), show(&boundary(&again)));
  ctx.count("repeated");
  Ok(())
}
fn sizes(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, one, [i8, i16, i32, i64, isize])
}
fn large_one<S: Sc + Bounded + SampleUniform>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = if r.chance(1, 25) { ctx.count("huge"); huge_n(r) } else { 500 + r.below(6000) };
  let h = stream(r);
  let p = PolygonConvex::<S>::random(n, &mut h.clone());
  ctx.count("large");
  judge(ctx, &p, n, h.name())
}
fn large(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, large_one, [i8, i16, i32, i64, isize])
}
/// Samples of a fair stream differ and reach many sizes and shapes.
fn diverse(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = 4 + r.below(20);
  let mut seen = HashSet::new();
  let mut sizes = HashSet::new();
  let k = 40;
  for _ in 0..k {
    let p = PolygonConvex::<i64>::random(n, r);
    judge(ctx, &p, n, "fair")?;
    seen.insert(key(&boundary(&p)));
    sizes.insert(boundary(&p).len());
  }
  // 64-bit coordinates: a repetition among 40 fair samples has probability
  // below 2^-100 unless the stream is not used.
  ck!(seen.len() == k, "{} samples of random({}) from one fair stream gave {} different polygons", k, n, seen.len());
  ck!(sizes.iter().max() == Some(&n), "random({}) over 64-bit coordinates never had {} vertices", n, n);
  ctx.count("diverse");
  Ok(())
}
/// The default distribution asks for one hundred vertices.
fn standard(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let h = stream(r);
  let p: PolygonConvex<isize> = h.clone().sample(Standard);
  judge(ctx, &p, 100, h.name())?;
  ctx.count("standard");
  Ok(())
}
fn main() {
  engine::run_main(Property {
    id: "C25",
    rule: "a sampled polygon, distinct by its vertices",
    assumptions: &["fixed-width integer coordinates", "random streams are not constantly zero (no polygon exists on that stream, as the source notes)"],
    families: vec![
      Family { name: "sizes", quick: 180000, thorough: 1500000, f: sizes },
      Family { name: "large", quick: 900, thorough: 5000, f: large },
      Family { name: "diverse", quick: 600, thorough: 5000, f: diverse },
      Family { name: "standard", quick: 3000, thorough: 30000, f: standard },
    ],
    require: &["repeated", "large", "huge", "diverse", "standard", "all_vertices_used", "fewer_vertices", "left_of_origin", "stream:low", "stream:high", "stream:fair", "stream:sticky", "stream:sweep", "stream:alternate"],
  })
}
