use num_rational::BigRational;
use num_traits::One;
use rgmon::gen::*;
use rgmon::ops::*;
use rgmon::rng::Rg;
use rgmon::*;

type R2 = [BigRational; 2];
fn ident(p: &R2) -> R2 {
  p.clone()
}
fn cut(o: &Out) -> String {
  let mut s = say(o);
  s.truncate(700);
  s
}
/// Where the outputs part company.
fn diff(a: &Out, b: &Out) -> String {
  let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
  format!("at item {} of {}/{}", k, a.len(), b.len())
}
fn call<S: Opx>(op: &str, i: &Input<S>, seed: u64) -> Result<Out, String> {
  no_panic(|| run(op, i, seed))
}

// --- the same integers in every type that holds them --------------------------------------
struct Seen {
  name: &'static str,
  out: Out,
}
fn in_type<S: Opx>(ctx: &mut Ctx, pl: &Plan, e: &Emb, r: &mut Rg, op: &str, seed: u64, seen: &mut Vec<Seen>) -> Res {
  let Some(mut i) = pl.put::<S>(e) else { return Ok(()) };
  // zero keeps its value under a minus sign
  zero_signs(r, &mut i.pts);
  zero_signs(r, &mut i.q);
  let out = call(op, &i, seed).map_err(|m| format!("{} on {}: {} for {}", op, S::NAME, m, pl.show()))?;
  if let Some(f) = seen.first() {
    ctx.eval();
    ctx.count(&format!("pair:{}", S::NAME));
    ck!(
      same(&f.out, &out, &ident),
      "{} gives, over {},\n {}\nand over {}\n {}\n({}) for {} placed as {:?}",
      op, f.name, cut(&f.out), S::NAME, cut(&out), diff(&f.out, &out), pl.show(), e
    );
  }
  seen.push(Seen { name: S::NAME, out });
  Ok(())
}
fn all<S: Opx>(ctx: &mut Ctx) -> Res {
  // S sets the size of the coordinates
  let r = &mut ctx.rng.fork();
  let lim = lim_for::<S>(r);
  let nmax = size(r);
  let pl = plan(r, lim, nmax);
  let e = emb::<S>(r, lim);
  let seed = r.u64();
  for _ in 0..6 {
    let op = *r.pick(OPS);
    let seen = &mut vec![];
    macro_rules! each {
      ($($t:ty),*) => { $( in_type::<$t>(ctx, &pl, &e, r, op, seed, seen)?; )* };
    }
    each!(BigRational, BigInt, Rug, i8, i16, i32, i64, isize, f32, f64, OF32, OF64, NN32, NN64);
    if seen.len() >= 2 {
      ctx.count(&format!("op:{}", op));
      ctx.countn("types compared", seen.len() as u64);
      ctx.max("types holding one input", seen.len() as f64);
      ctx.nontrivial((S::NAME, op, pl.show(), seed));
      ctx.sample(|| format!("{} over {:?}: {}", op, seen.iter().map(|s| s.name).collect::<Vec<_>>(), cut(&seen[0].out)));
    }
  }
  Ok(())
}
fn types(ctx: &mut Ctx) -> Res {
  all_types!(ctx, all)
}
fn size(r: &mut Rg) -> usize {
  match r.below(20) {
    0 => 70,
    1..=5 => 25,
    _ => 10,
  }
}

// --- one type, two placements ------------------------------------------------------------
/// Operations that look at the position of the origin are not translation invariant;
/// none of the catalogue's is.
fn moved<S: Opx>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let full = lim_for::<S>(r);
  // leave room to move
  let lim = match r.below(3) {
    0 => full,
    1 => (full / 3).max(2),
    _ => full.min(9),
  };
  let nmax = size(r);
  let pl = plan(r, lim, nmax);
  let seed = r.u64();
  for _ in 0..3 {
    let (e1, e2) = (emb::<S>(r, lim), emb::<S>(r, lim));
    let (Some(mut a), Some(mut b)) = (pl.put::<S>(&e1), pl.put::<S>(&e2)) else { continue };
    zero_signs(r, &mut a.pts);
    zero_signs(r, &mut b.pts);
    for _ in 0..5 {
      let op = *r.pick(OPS);
      if op == "sort_around" || op == "isect_set" {
        continue;
      }
      let x = call(op, &a, seed).map_err(|m| format!("{} on {}: {} for {} placed as {:?}", op, S::NAME, m, pl.show(), e1))?;
      let y = call(op, &b, seed).map_err(|m| format!("{} on {}: {} for {} placed as {:?}", op, S::NAME, m, pl.show(), e2))?;
      let f = |p: &R2| e2.apply(&e1.invert(p));
      ctx.eval();
      ck!(
        same(&x, &y, &f),
        "{} over {} gives\n {}\nunder {:?} and\n {}\nunder {:?} for {}",
        op, S::NAME, cut(&x), e1, cut(&y), e2, pl.show()
      );
      ctx.count(&format!("moved:{}", op));
      ctx.count(&format!("moved over {}", S::NAME));
      if e1.mul != e2.mul {
        ctx.count("scaled")
      }
      if e1.off != e2.off {
        ctx.count("translated")
      }
      ctx.nontrivial((S::NAME, op, pl.show(), format!("{:?}{:?}", e1, e2)));
    }
  }
  Ok(())
}
fn placements(ctx: &mut Ctx) -> Res {
  all_types!(ctx, moved)
}

// --- values that only some types hold, taken from one and read into the others -------------
/// Inputs with no lattice behind them: extremes, odd floats, near-degenerate.
fn raw<S: Opx>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = 4 + r.below(8);
  let pts = raw_points::<S>(r, n);
  let q = raw_points::<S>(r, 4);
  let rat = |v: &[rgeometry::data::Point<S>]| -> Vec<R2> { v.iter().map(sc::rpt).collect() };
  let (pts, q) = (rat(&pts), rat(&q));
  // a polygon out of the points themselves
  let Some(base) = from_rat::<BigRational>(&pts, &pts[..3], &pts[..3], &q) else { return Ok(()) };
  let Ok(h) = rgeometry::algorithms::convex_hull(base.pts.clone()) else { return Ok(()) };
  let hull: Vec<R2> = boundary(h.polygon()).iter().map(sc::rpt).collect();
  let poly: Vec<R2> = match rgeometry::algorithms::polygonization::new_star_polygon(base.pts.clone(), &base.pts[0]) {
    Ok(p) => {
      let p: Vec<R2> = boundary(&p).iter().map(sc::rpt).collect();
      if with_ex!(ex::exact_rat(&p), x => ex::is_simple(x) && ex::sgn(&ex::area2(x)) > 0) {
        p
      } else {
        hull.clone()
      }
    }
    Err(_) => hull.clone(),
  };
  let seed = r.u64();
  for _ in 0..5 {
    let op = *r.pick(OPS);
    let mut seen: Vec<Seen> = vec![];
    macro_rules! each {
      ($($t:ty),*) => {$(
        if let Some(i) = from_rat::<$t>(&pts, &poly, &hull, &q) {
          let out = call(op, &i, seed).map_err(|m| format!("{} on {}: {} for {:?} {:?}", op, <$t as sc::Sc>::NAME, m, show(&i.pts), show(&i.q)))?;
          if let Some(f) = seen.first() {
            ctx.eval();
            ck!(
              same(&f.out, &out, &ident),
              "{} gives, over {},\n {}\nand over {}\n {}\n({}) for points {}, queries {}",
              op, f.name, cut(&f.out), <$t as sc::Sc>::NAME, cut(&out), diff(&f.out, &out), show(&i.pts), show(&i.q)
            );
            ctx.count(&format!("raw:{}", <$t as sc::Sc>::NAME));
          }
          seen.push(Seen { name: <$t as sc::Sc>::NAME, out });
        }
      )*};
    }
    each!(BigRational, BigInt, Rug, i8, i16, i32, i64, isize, f32, f64, OF32, OF64, NN32, NN64);
    if seen.len() >= 2 {
      ctx.nontrivial((S::NAME, op, seed));
    }
  }
  Ok(())
}
fn from_rat<S: Opx>(pts: &[R2], poly: &[R2], hull: &[R2], q: &[R2]) -> Option<Input<S>> {
  use rgeometry::data::*;
  let go = |v: &[R2]| -> Option<Vec<Point<S>>> { v.iter().map(|p| Some(Point::new([S::from_rat(&p[0])?, S::from_rat(&p[1])?]))).collect() };
  Some(Input {
    pts: go(pts)?,
    poly: Polygon::new_unchecked(go(poly)?),
    convex: PolygonConvex::new_unchecked(Polygon::new_unchecked(go(hull)?)),
    q: go(q)?,
    dir: [2, -1],
  })
}
fn raw_values(ctx: &mut Ctx) -> Res {
  all_types!(ctx, raw)
}

// --- the predicates on their own, on points and vectors of any magnitude ------------------
fn verdicts<S: Opx>(t: &[R2]) -> Option<Out> {
  use rgeometry::data::*;
  use rgeometry::{Intersects, Orientation};
  let g: Vec<Point<S>> = t.iter().map(|p| Some(Point::new([S::from_rat(&p[0])?, S::from_rat(&p[1])?]))).collect::<Option<_>>()?;
  let (a, b, c) = (&g[0], &g[1], &g[2]);
  let v: &Vector<S, 2> = g[3].as_vec();
  let mut o: Vec<String> = vec![];
  macro_rules! say { ($($n:literal: $x:expr),* $(,)?) => { $( o.push(format!("{}={:?}", $n, $x)); )* } }
  say!(
    "orient": Point::orient(a, b, c),
    "along_vector": Orientation::along_vector(a, v, b),
    "along_perp_vector": Orientation::along_perp_vector(a, v, b),
    "cmp_along": v.cmp_along(a, b),
    "cmp_distance_to": a.cmp_distance_to(b, c),
    "ccw_cmp_around": a.ccw_cmp_around(b, c),
    "all_colinear": Point::all_colinear(&g[..3]),
    "cmp": a.cmp(b),
  );
  if t[3] != [BigRational::from_integer(0.into()), BigRational::from_integer(0.into())] {
    say!("ccw_cmp_around_with": a.ccw_cmp_around_with(v, b, c));
    let h = HalfLineSoS::new_directed(a, v);
    say!("ray": (&h).intersect(DirectedEdge { src: b, dst: c }));
  }
  Some(o.into_iter().map(Tok::S).collect())
}
/// Values that several types hold, spread over many orders of magnitude.
fn spread(r: &mut Rg) -> BigRational {
  let m = match r.below(4) {
    0 => 0,
    1 => r.range(-3, 3),
    2 => r.range(-255, 255),
    _ => r.range(-(1 << 24) + 1, (1 << 24) - 1),
  };
  let e = match r.below(4) {
    0 => 0,
    1 => r.range(-12, 12),
    _ => r.range(-80, 60),
  };
  let two = BigRational::from_integer(2.into());
  BigRational::from_integer(m.into()) * num_traits::Pow::pow(two, e as i32)
}
fn predicates<S: Opx>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let mut t: Vec<R2> = if r.chance(1, 2) {
    raw_points::<S>(r, 4).iter().map(sc::rpt).collect()
  } else {
    // around a line through (almost) the first point, far and near
    let a: R2 = [spread(r), spread(r)];
    let v: R2 = [spread(r), spread(r)];
    let mut at = |r: &mut Rg| -> R2 {
      let k = spread(r);
      let base = if r.chance(1, 2) { a.clone() } else { [BigRational::from_integer(0.into()), BigRational::from_integer(0.into())] };
      [&base[0] + &v[0] * &k, &base[1] + &v[1] * &k]
    };
    let (b, c) = (at(r), at(r));
    let v = match r.below(3) {
      0 => [-&v[1], v[0].clone()],
      _ => v,
    };
    vec![a, b, c, v]
  };
  for _ in 0..2 {
    let mut seen: Vec<Seen> = vec![];
    macro_rules! each {
      ($($t:ty),*) => {$(
        if let Some(out) = no_panic(|| verdicts::<$t>(&t)).map_err(|m| format!("predicates over {}: {} for {:?}", <$t as sc::Sc>::NAME, m, t))? {
          if let Some(f) = seen.first() {
            ctx.eval();
            ck!(same(&f.out, &out, &ident), "over {}: {}\nover {}: {}\nfor the points a, b, c and the vector v of {:?}", f.name, say(&f.out), <$t as sc::Sc>::NAME, say(&out), t);
            ctx.count(&format!("predicates:{}", <$t as sc::Sc>::NAME));
          }
          seen.push(Seen { name: <$t as sc::Sc>::NAME, out });
        }
      )*};
    }
    each!(BigRational, BigInt, Rug, i8, i16, i32, i64, isize, f32, f64, OF32, OF64, NN32, NN64);
    if seen.len() >= 2 {
      ctx.nontrivial(format!("{:?}", t));
    }
    t.rotate_left(1);
  }
  Ok(())
}
fn raw_predicates(ctx: &mut Ctx) -> Res {
  all_types!(ctx, predicates)
}

fn main() {
  let _ = BigRational::one;
  engine::run_main(Property {
    id: "C32",
    rule: "one (operation, input) decided in at least two coordinate types, or in two placements of one type",
    assumptions: &["f64 magnitudes stay within 2^+-240, where products neither overflow nor lose bits to underflow"],
    families: vec![
      Family { name: "types", quick: 6000, thorough: 300_000, f: types },
      Family { name: "placements", quick: 4000, thorough: 200_000, f: placements },
      Family { name: "raw_values", quick: 4000, thorough: 200_000, f: raw_values },
      Family { name: "raw_predicates", quick: 60_000, thorough: 3_000_000, f: raw_predicates },
    ],
    require: &["scaled", "translated", "pair:i8", "pair:f32", "pair:f64", "pair:rug::Integer", "pair:isize", "raw:f64", "predicates:f32"],
  })
}
